#!/usr/bin/env python3
"""Runs the check of one property:  check.py <ID>      (tier from VERIF_TIER, seed from VERIF_SEED)

 1. TLC explores the design models registered for the property (exhaustively, small constants)
 2. the drivers are compiled against /repo's working tree and run; they record executions
 3. TLC validates every (distinct) record against the trace specification

Exit 0: held.  Exit 1 + VIOLATION line: the code does something the specification does not allow.
Any other exit: the check itself failed.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
DRV = os.path.join(VERIF, 'drivers')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = max(2, os.cpu_count() or 8)
T0 = time.time()


class Infra(Exception):
    pass


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def cpu_flags():
    try:
        return set(re.search(r'^flags\s*:(.*)$', open('/proc/cpuinfo').read(), re.M).group(1).split())
    except Exception:
        return set()


def march_ok(flag):
    if flag == '-march=x86-64-v4':
        return {'avx512f', 'avx512bw', 'avx512cd', 'avx512dq', 'avx512vl'} <= cpu_flags()
    return True


# ------------------------------------------------------------------ TLC
def java(xmx):
    return ['java', '-XX:+UseSerialGC', '-Xss16m', '-Xmx' + xmx, '-XX:TieredStopAtLevel=4', '-cp', JARS, 'tlc2.TLC']


def run_mc(name, cfg, scratch, workers, timeout=800):
    meta = tempfile.mkdtemp(dir=scratch)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx6g', '-cp', JARS, 'tlc2.TLC', '-metadir', meta, '-workers', str(workers),
           '-noTE', '-config', cfg, name + '.tla']
    r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                       env=dict(os.environ, TMPDIR=scratch))
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', r.stdout)
    if r.returncode != 0 or not m:
        raise Infra('model %s/%s failed (exit %d):\n%s' % (name, cfg, r.returncode, r.stdout[-3000:]))
    return int(m.group(1)), int(m.group(2))


def validate(spec, cfg, path, env, scratch, timeout=800):
    """returns (reached record index 1-based, total, states, tail of output, clean?)"""
    meta = tempfile.mkdtemp(dir=scratch)
    e = dict(os.environ, TRACE=path, TMPDIR=scratch)
    e.update(env)
    r = subprocess.run(java('2g') + ['-metadir', meta, '-workers', '1', '-noTE', '-config', cfg, spec + '.tla'], cwd=SPEC,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    ms = re.search(r'^(\d+) states generated,', r.stdout, re.M)
    states = int(ms.group(1)) if ms else 0
    m = re.search(r'<<"REACHED", (\d+), (\d+)>>', r.stdout)
    if m and r.returncode == 0:
        return int(m.group(1)), int(m.group(2)), states, ''
    # an invariant of the specification violated, or the record is outside the domain of the
    # specification: the last state names the record
    if r.returncode in (12, 13, 75, 76, 77):
        ls = re.findall(r'/\\ l = (\d+)', r.stdout)
        if ls:
            return int(ls[-1]), -1, states, r.stdout[-2000:]
    raise Infra('TLC failed on %s (exit %d):\n%s' % (path, r.returncode, r.stdout[-3000:]))


# ------------------------------------------------------------------ drivers
def compile_unit(u, scratch):
    exe = os.path.join(scratch, 'u%03d' % u['idx'])
    cmd = u.get('cxx', ['g++']) + ['-std=' + u.get('std', 'gnu++23'), '-w', '-I' + REPO, '-I' + DRV] + u['flags'] \
        + ['-DLABEL="%s"' % u['label'], os.path.join(DRV, u['src']), '-o', exe]
    t = time.time()
    env = dict(os.environ, TMPDIR=scratch)
    # nothing here throws, and without landing pads the drivers compile a good deal faster; should a header need exceptions, keep them
    r = subprocess.run(cmd + ['-fno-exceptions'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    u['cmd'] = ' '.join(cmd)
    u['ct'] = time.time() - t
    return exe, r.returncode, r.stdout


def run_unit(u, exe, scratch):
    out = exe + '.out'
    t = time.time()
    with open(out, 'w') as f:
        try:
            r = subprocess.run([exe], stdout=f, stderr=subprocess.PIPE, cwd=scratch, timeout=u.get('timeout', 300))
            rc, err = r.returncode, r.stderr.decode(errors='replace')[-2000:]
        except subprocess.TimeoutExpired:
            rc, err = 'timeout', ''
    u['rt'] = time.time() - t
    return out, rc, err


def toolchain_alive(scratch):
    """the compiler works and /repo is there at all"""
    src = os.path.join(scratch, 'alive.cpp')
    open(src, 'w').write('#include <vector>\nint main(){std::vector<int> v(3);return v[0];}\n')
    r = subprocess.run(['g++', '-std=gnu++23', src, '-o', src + '.x'], capture_output=True)
    return r.returncode == 0 and os.path.isfile(os.path.join(REPO, 'vir/simd.h'))


# ------------------------------------------------------------------ main
def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    os.environ['VERIF_TIER'] = tier
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    os.environ['VERIF_SEED'] = str(seed)
    chk = registry.CHECKS[pid](tier)
    scratch = tempfile.mkdtemp(prefix='vir-%s-' % pid)
    try:
        return run(pid, tier, seed, chk, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay_path(pid, text):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.txt' % (pid, hashlib.sha1(text.encode()).hexdigest()[:12]))
    open(p, 'w').write(text)
    return p


def known_findings(pid):
    p = os.path.join(VERIF, 'known-findings.txt')
    res = []
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) record=(\{.*\}) :: (.*)', ln)
            if m and m.group(1) == pid:
                res.append((json.loads(m.group(2)), m.group(3)))
    return res


def is_known(rec, known):
    for pat, what in known:
        if all(rec.get(k) == v for k, v in pat.items()):
            return what
    return None


def run(pid, tier, seed, chk, scratch):
    units = [dict(u) for u in chk['units'] if all(march_ok(f) for f in u['flags'])]
    units = list({(u['src'], *u['flags'], *u.get('cxx', ()), u.get('std')): u for u in units}.values())
    for i, u in enumerate(units):
        u['idx'] = i
    known = known_findings(pid)
    viol, samples = [], []
    mc_states = mc_trans = 0

    # compile + run everything in parallel; the models run alongside
    with cf.ThreadPoolExecutor(NCPU) as ex, cf.ThreadPoolExecutor(2) as exmc:
        mcf = [exmc.submit(run_mc, n, c, scratch, 4) for n, c in chk.get('mc', [])]

        def one(u):
            exe, rc, out = compile_unit(u, scratch)
            if rc and u.get('optional'):
                u['skipped'] = 1    # a second compiler: the project's own build does not use it, failing to compile there is no violation
                return u, None, None, ''
            if rc:
                return u, None, 'compile', out
            o, rc, err = run_unit(u, exe, scratch)
            if rc:
                o2, rc2, err2 = run_unit(u, exe, scratch)
                if rc2 == rc:
                    return u, o, 'run exit %s' % rc, err
                o, rc, err = o2, rc2, err2
                if rc:
                    raise Infra('driver %s fails unreproducibly: %s' % (u['label'], err))
            if os.path.exists(exe):
                os.unlink(exe)
            return u, o, None, ''
        res = list(ex.map(one, units))
        for f in mcf:
            g, d = f.result()
            mc_trans += g
            mc_states += d
    log('units', len(units), 'compile max %.1fs sum %.1fs' % (max(u['ct'] for u in units), sum(u['ct'] for u in units)),
        'run max %.1fs' % max(u.get('rt', 0) for u in units), '; models: %d states' % mc_states)
    if os.environ.get('VERIF_VERBOSE'):
        for u in units:
            log('   %-40s compile %.1fs run %.1fs' % (u['label'], u['ct'], u.get('rt', 0)))

    bad_units = [(u, why, msg) for u, o, why, msg in res if why]
    if bad_units:
        if not toolchain_alive(scratch):
            raise Infra('toolchain does not work')
        for u, why, msg in bad_units[:5]:
            viol.append('driver unit %s: %s\ncommand: %s\n%s' % (u['label'], why, u['cmd'], msg[:6000]))

    # collect records; groups of consecutive records that belong together share a "g" key
    evaluations = 0
    seen = {}
    shards = {}
    for u, o, why, msg in res:
        if not o:
            continue
        spec = u.get('spec', chk['spec'])
        with open(o) as f:
            group, gid, glabel = [], None, None

            def flush():
                if not group:
                    return
                key = (spec, '\n'.join(group))
                if key not in seen:
                    seen[key] = glabel
            for ln in f:
                lab, tab, js = ln.rstrip('\n').partition('\t')
                if not tab or not js.endswith('}'):
                    continue        # truncated last line of a crashed driver (reported above)
                evaluations += 1
                m = re.match(r'\{"g":(\d+),', js)
                if m:
                    if m.group(1) != gid:
                        flush()
                        group, gid, glabel = [], m.group(1), lab
                    group.append('{' + js[m.end():])
                else:
                    flush()
                    group, gid, glabel = [js], None, lab
                    flush()
                    group = []
            flush()
        os.unlink(o)
    if evaluations == 0 and not viol:
        raise Infra('no records')

    # shard and validate
    byspec = {}
    for (spec, body), lab in seen.items():
        byspec.setdefault(spec, []).append((body, lab))
    jobs = []
    total_bytes = sum(len(b) for (s, b) in seen) or 1
    for spec, items in byspec.items():
        nb = sum(len(b) for b, _ in items)
        n = max(1, min(len(items), round(NCPU * 2 * nb / total_bytes), -(-nb // 6000000)))
        # interleave, so that expensive families are spread
        for k in range(n):
            jobs.append((spec, items[k::n], '%s-%d' % (spec, k)))

    def check_job(job):
        spec, items, name = job
        path = os.path.join(scratch, name + '.ndjson')
        todo, states, bad, notes, valid = items, 0, [], [], 0
        for _ in range(6):
            idx = []
            with open(path, 'w') as f:
                for gi, (body, lab) in enumerate(todo):
                    f.write(body + '\n')
                    idx += [gi] * (body.count('\n') + 1)
            if not idx:
                break
            reached, total, st, note = validate(spec, chk.get('cfg', {}).get(spec, spec + '.cfg'), path, chk.get('env', {}), scratch)
            states += st
            if total == len(idx) and reached == total + 1:
                valid += len(todo)
                break
            if total != -1 and total != len(idx):
                raise Infra('trace length mismatch %d %d' % (total, len(idx)))
            gi = idx[min(reached, len(idx)) - 1]
            off = reached - 1 - idx.index(gi)
            # confirm on its own
            one = os.path.join(scratch, name + '.one')
            open(one, 'w').write(todo[gi][0] + '\n')
            r2, t2, st2, n2 = validate(spec, chk.get('cfg', {}).get(spec, spec + '.cfg'), one, chk.get('env', {}), scratch)
            if t2 != -1 and r2 == t2 + 1:
                raise Infra('rejection not reproducible: ' + todo[gi][0][:500])
            rec = todo[gi][0].split('\n')[off]
            bad.append((spec, todo[gi], off, note or n2))
            valid += gi
            if len(bad) >= 5 and not known:
                break
            todo = todo[gi + 1:]
        os.unlink(path)
        return states, bad, valid

    tstates = 0
    validated = 0
    kf = set()
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for st, bad, valid in ex.map(check_job, jobs):
            tstates += st
            validated += valid
            for spec, (body, lab), off, note in bad:
                lines = body.split('\n')
                rec = json.loads(lines[off])
                w = is_known(rec, known)
                if w:
                    kf.add(w)
                    continue
                viol.append('spec %s rejects the record\n  %s\nrecorded by: %s\nhistory:\n%s\n%s' % (
                    spec, lines[off], lab, '\n'.join(lines[:off + 1]), note))
    log('records', evaluations, 'distinct', len(seen), 'validated', validated, 'trace states', tstates)

    items = list(seen.items())
    for (spec, body), lab in items[:: max(1, len(items) // 5)][:5]:
        samples.append({'spec': spec, 'recorded_by': lab, 'record': body.split('\n')[-1][:600]})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': chk.get('level', 'model_checking'),
        'coverage': {
            'states': mc_states + tstates,
            'transitions': mc_trans + tstates,
            'traces_validated_against_impl': validated,
            'samples': samples,
            'evaluations': evaluations,
            'distinct_nontrivial': len(seen),
            'rule': 'evaluations: executions of the real code recorded on this run; distinct: different records after removing the '
                    'label of the driver unit; states/transitions: of the design models (exhaustive within their constants) plus '
                    'the trace specification',
            'design_models': [n + '/' + c for n, c in chk.get('mc', [])],
            'design_states': mc_states,
            'driver_units': len(units),
            'driver_units_skipped': sum(u.get('skipped', 0) for u in units),
        },
        'assumptions': chk.get('assumptions', []),
        'wall_s': round(time.time() - T0, 1),
        'violations': len(viol),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for w in sorted(kf):
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    if viol:
        for v in viol[:5]:
            p = replay_path(pid, 'property %s\n%s\n' % (pid, v))
            print(v[:1500])
            print('VIOLATION property=%s replay=%s' % (pid, p), flush=True)
        return 1
    print('OK property=%s %d records, %d distinct, %d states, %.0fs' % (pid, evaluations, len(seen), mc_states + tstates, time.time() - T0))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Infra as e:
        print('CHECK-ERROR', e, flush=True)
        sys.exit(3)
    except subprocess.TimeoutExpired as e:
        print('CHECK-ERROR timeout', e, flush=True)
        sys.exit(3)
