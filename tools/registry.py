"""Which driver units, trace specifications and design models decide which property."""
V2, V3, V4 = '-march=x86-64-v2', '-march=x86-64-v3', '-march=x86-64-v4'
FB = '-DVIR_DISABLE_STDX_SIMD'
COMMON = ['TLC and its CommunityModules evaluate the specification correctly',
          'g++ 13 on x86-64 compiles the drivers correctly; records are produced by the public API only']


def unit(src, label, *flags, **kw):
    d = dict(src=src, label=label, flags=list(flags))
    d.update(kw)
    return d


def clang(units, *subs):
    """the same drivers compiled with clang (the units whose label contains one of subs)"""
    r = []
    for u in units:
        if not subs or any(s in u['label'] for s in subs):
            r.append(dict(u, label=u['label'] + ' clang', cxx=['clang++'], optional=True))
    return r


def restd(units, std, *labels):
    """language mode of the named units (strict ISO modes and older standards select other code in the headers)"""
    for u in units:
        if u['label'] in labels:
            u['std'] = std
            u['optional'] = True
            u['label'] += ' ' + std
    return units


def foreach_units(tier):
    u = []

    def add(ty, st, mode, opt='-O2', march=V3):
        name = ty.replace(' ', '_')
        u.append(unit('exec_foreach.cpp', 'for_each %s set%d %s %s %s' % (name, st, mode, opt, march[-2:]), opt, march,
                      '-DTYPE=' + ty, '-DSET=%d' % st, *([FB] if mode == 'fallback' else [])))
    for ty in ['float', 'double', 'short', 'unsigned char', 'P2<float>', 'P3<float>', 'Mix', 'Tup']:
        add(ty, 0, 'stdlib')
    for ty in ['float', 'unsigned char', 'P2<short>']:
        add(ty, 1, 'stdlib')
    for ty in ['float', 'unsigned char']:
        add(ty, 2, 'stdlib')
    add('int', 0, 'fallback')
    add('float', 1, 'fallback')
    add('P3<double>', 1, 'fallback')
    add('unsigned char', 2, 'fallback')
    add('int', 3, 'fallback')
    add('float', 0, 'stdlib', '-O0')
    add('unsigned char', 2, 'stdlib', '-Os')
    add('long', 0, 'stdlib', '-O3', V2)
    add('unsigned char', 0, 'stdlib', '-O2', V4)
    add('float', 0, 'stdlib', '-O2', V4)
    add('float', 4, 'stdlib', '-O1')
    add('short', 4, 'fallback', '-O1')
    add('float', 6, 'stdlib', '-O1')
    if tier == 'thorough':
        for ty in ['float', 'double', 'short', 'unsigned char', 'long', 'P2<float>', 'P3<float>', 'P3<double>', 'Mix', 'Tup', 'P2<short>']:
            for st in (0, 1, 2, 6):
                for mode in ('stdlib', 'fallback'):
                    add(ty, st, mode, '-O1', V3)
                    add(ty, st, mode, '-Os', V3)
        for ty in ['unsigned char', 'short', 'float', 'P2<float>', 'P3<float>']:
            add(ty, 3, 'fallback', '-Os')
            add(ty, 0, 'stdlib', '-O2', V2)
            add(ty, 2, 'stdlib', '-O2', V4)
    restd(u, 'c++20', 'for_each unsigned_char set1 stdlib -O2 v3', 'for_each P3<double> set1 fallback -O2 v3', 'for_each P3<float> set0 stdlib -O2 v3')
    return u


def transform_units(tier):
    u = []

    def add(i1, i2, out, nin, st, mode='stdlib', opt='-O2', march=V3):
        name = '%s,%s->%s' % (i1, i2, out) if nin > 1 else '%s->%s' % (i1, out)
        u.append(unit('exec_transform.cpp', 'transform %s nin%d set%d %s %s %s' % (name.replace(' ', '_'), nin, st, mode, opt, march[-2:]),
                      opt, march, '-DIN1=' + i1, '-DIN2=' + i2, '-DOUT=' + out, '-DNIN=%d' % nin, '-DSET=%d' % st,
                      *([FB] if mode == 'fallback' else [])))
    add('float', 'float', 'float', 1, 0)
    add('unsigned char', 'unsigned char', 'unsigned char', 1, 0)
    add('float', 'float', 'double', 1, 0)
    add('double', 'float', 'float', 2, 0)
    add('short', 'int', 'int', 2, 0)
    add('float', 'float', 'float', 3, 0)
    add('P2<float>', 'P2<float>', 'P2<float>', 1, 0)
    add('P3<float>', 'P3<float>', 'P3<float>', 1, 0)
    add('float', 'float', 'float', 1, 1)
    add('int', 'float', 'float', 2, 1)
    add('unsigned char', 'unsigned char', 'unsigned char', 2, 2)
    add('double', 'double', 'double', 1, 0, 'stdlib', '-O0')
    add('int', 'int', 'int', 1, 1, 'fallback')
    add('int', 'float', 'double', 2, 0, 'fallback')
    add('short', 'short', 'short', 3, 1, 'fallback', '-Os')
    add('int', 'int', 'int', 2, 3, 'fallback')
    add('float', 'float', 'float', 1, 0, 'stdlib', '-O2', V4)
    add('short', 'short', 'short', 1, 0, 'stdlib', '-O3', V2)
    add('float', 'float', 'float', 1, 4, 'stdlib', '-O1')
    add('int', 'short', 'int', 2, 4, 'fallback', '-O1')
    add('float', 'float', 'float', 1, 6, 'stdlib', '-O1')
    add('P3<float>', 'P3<float>', 'float', 1, 0)
    add('P2<short>', 'P2<short>', 'short', 1, 1)
    add('double', 'float', 'P2<double>', 1, 0)
    if tier == 'thorough':
        for i1, i2, o in [('float', 'float', 'float'), ('double', 'float', 'double'), ('short', 'int', 'float'), ('long', 'long', 'long'),
                          ('unsigned char', 'short', 'short'), ('Mix', 'Mix', 'Mix'), ('Tup', 'Tup', 'Tup'), ('P3<double>', 'P3<double>', 'P3<double>')]:
            for nin in (1, 2, 3):
                for st in (0, 1, 2):
                    if st and i1 in ('Mix', 'Tup'):
                        continue
                    for mode, march in (('stdlib', V3), ('fallback', V3), ('stdlib', V4)):
                        if nin == 1 and i1 == 'unsigned char':
                            continue
                        add(i1, i2, o, nin, st, mode, '-O2', march)
    restd(u, 'c++20', 'transform float->double nin1 set0 stdlib -O2 v3', 'transform int->int nin1 set1 fallback -O2 v3')
    return u


def reduce_units(tier, what):
    u = []

    def add(ty, acc, st, mode='stdlib', opt='-O2', march=V3):
        u.append(unit('exec_reduce.cpp', '%s %s acc %s set%d %s %s %s' % ('count_if' if what else 'reduce', ty.replace(' ', '_'), acc.replace(' ', '_'), st, mode, opt, march[-2:]),
                      opt, march, '-DTYPE=' + ty, '-DACC=' + acc, '-DSET=%d' % st, '-DWHAT=%d' % what, '-DHB=%d' % len(u),
                      *([FB] if mode == 'fallback' else [])))
    add('float', 'float', 0)
    add('int', 'int', 0)
    add('unsigned char', 'unsigned char', 0)
    add('double', 'double', 0)
    add('float', 'float', 1)
    add('unsigned short', 'unsigned short', 1)
    add('unsigned char', 'unsigned char', 2)
    add('float', 'float', 2, 'fallback')
    add('int', 'int', 0, 'fallback')
    add('int', 'int', 1, 'fallback')
    add('int', 'int', 3, 'fallback')
    add('float', 'float', 0, 'stdlib', '-O0')
    add('int', 'int', 1, 'stdlib', '-Os')
    add('float', 'float', 0, 'stdlib', '-O2', V4)
    add('long', 'long', 0, 'stdlib', '-O3', V2)
    add('int', 'int', 5, 'stdlib', '-O1')
    add('float', 'float', 5, 'fallback', '-O1')
    add('float', 'float', 6, 'stdlib', '-O1')
    if what == 0:
        add('int', 'int', 4)
        add('unsigned short', 'unsigned short', 4, 'fallback')
        add('float', 'double', 0)
        add('short', 'int', 1)
        add('int', 'double', 1, 'fallback')
    else:
        add('double', 'double', 2)
        add('short', 'short', 0)
    if tier == 'thorough':
        for ty in ('float', 'double', 'int', 'unsigned short', 'unsigned char', 'long'):
            for st in (0, 1, 2) + ((4,) if what == 0 and ty not in ('float', 'double') else ()):
                for mode, march, opt in (('stdlib', V3, '-O1'), ('fallback', V3, '-O2'), ('stdlib', V4, '-O2'), ('stdlib', V3, '-O0')):
                    add(ty, ty, st, mode, opt, march)
    restd(u, 'c++20', *('%s %s' % (n, x) for n in ('reduce', 'count_if') for x in ('double acc double set0 stdlib -O2 v3', 'int acc int set1 fallback -O2 v3')))
    return u


def long_units(alg):
    def f(tier):
        u = []

        def add(ty, mode='stdlib', opt='-O2', march=V3, *more):
            u.append(unit('exec_long.cpp', 'long ranges %s %s %s %s %s%s' % (['for_each', 'transform', 'reduce', 'count_if'][alg], ty.replace(' ', '_'), mode, opt, march[-2:], ' huge' if more else ''),
                          opt, march, '-DTYPE=' + ty, '-DALG=%d' % alg, *([FB] if mode == 'fallback' else []), *more, spec='ExecBigTrace'))
        add('unsigned char', 'stdlib', '-O2', V3, '-DHUGE_RANGE=1')
        add('unsigned char')
        add('unsigned int', 'fallback')
        add('unsigned short', 'stdlib', '-O1', V2)
        if tier == 'thorough':
            add('unsigned char', 'fallback', '-O2', V3, '-DHUGE_RANGE=1')
            add('unsigned int', 'stdlib', '-O2', V4)
            add('unsigned short', 'fallback', '-Os')
            add('unsigned char', 'stdlib', '-O3', V4)
        return u
    return f


MC_EXEC = [('ExecDesign', 'ExecDesign.cfg')]


def exec_check(units, chunks, *clang_labels):
    def f(tier):
        mc = MC_EXEC if tier == 'quick' else [('ExecDesign', 'ExecDesignBig.cfg')]
        us = []
        for g in units:
            us += g(tier)
        if tier == 'thorough':
            us += clang([u for u in us if 'consteval' not in u['label']][::3])
        else:
            us += clang(us, *clang_labels)
        if chunks == '1':
            mc = mc + [('ExecBigDesign', 'ExecBigDesign.cfg')]
        return dict(spec='ExecTrace', env={'CHUNKS': chunks}, mc=mc, units=us, assumptions=COMMON)
    return f


def c05_units(tier):
    if tier == 'thorough':
        return foreach_units(tier) + transform_units(tier) + reduce_units(tier, 0) + reduce_units(tier, 1)

    def pick(us, *subs):
        return [x for x in us if any(s in x['label'] for s in subs)]
    q = 'quick'
    return (pick(foreach_units(q), 'set0 stdlib', 'set1 stdlib', 'char set2 stdlib -O2', 'set3', 'set6')
            + pick(transform_units(q), 'float->float nin1', 'char->unsigned_char nin1 set0', 'float,float->float nin3', 'double,float', 'short,int')
            + pick(reduce_units(q, 0), 'float acc float set0 stdlib', 'float acc float set1', 'char acc unsigned_char', 'int acc int set1', 'set6')
            + pick(reduce_units(q, 1), 'float acc float set0 stdlib', 'float acc float set1', 'char acc unsigned_char set0'))

# ---- the data-parallel types of vir/simd.h (fallback implementation) --------------------------------
ITYPES = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long',
          'long long', 'unsigned long long', 'wchar_t', 'char16_t', 'char32_t']
FTYPES = ['float', 'double', 'long double']


def lane_unit(src, ty, ws, opt='-O0', march=V3, *more):
    return unit(src, '%s %s widths%d %s %s%s' % (src[:-4], ty.replace(' ', '_'), ws, opt, march[-2:], ''.join(' ' + m for m in more)),
                opt, march, '-ffp-contract=off', FB, '-DTYPE=' + ty, '-DWS=%d' % ws, *more)


def lane_units(src, types, wide=('int', 'float', 'unsigned char'), opt=('int', 'float', 'short'), full=()):
    def f(tier):
        u = [lane_unit(src, t, 0) for t in types]
        u += [lane_unit(src, t, w) for t in wide for w in (1, 2, 3)]
        u += [lane_unit(src, t, 0, '-O2') for t in opt]
        u += [lane_unit(src, t, 0, '-O0', V3, '-DFULL=1') for t in full]
        if tier == 'thorough':
            u = [lane_unit(src, t, w, o, V3, *m) for t in types for w in (0, 1, 2, 3) for o in ('-O0', '-O2')
                 for m in (((), ('-DFULL=1',)) if full and w == 0 else ((),))]
        u += clang(u) if tier == 'thorough' else clang(u, *('%s widths0 -O2' % t for t in opt[1:2]))
        u.sort(key=lambda x: '-O0' in x['flags'])     # the slow ones first
        return u
    return f


def lane_check(units, *mc):
    return lambda tier: dict(spec='LanesTrace', env={}, mc=[(m, m + '.cfg') for m in mc], units=units(tier), assumptions=COMMON)


OPS = lane_units('lanes_ops.cpp', ITYPES + FTYPES, opt=('int', 'float'))
MEM = lane_units('lanes_mem.cpp', ITYPES + FTYPES, opt=('int', 'double'), full=('int', 'float', 'unsigned char', 'long'))
WHERE = lane_units('lanes_where.cpp', ITYPES + FTYPES, opt=('int', 'double'))
MASK = lane_units('lanes_mask.cpp', ['signed char', 'unsigned short', 'int', 'unsigned long', 'float', 'double', 'long double'],
                  wide=('int', 'unsigned char', 'double'), opt=('int', 'float'))
REDUCE = lane_units('lanes_reduce.cpp', ITYPES + FTYPES, opt=('int', 'float', 'unsigned char'))
MATH = lane_units('math.cpp', FTYPES, wide=('float', 'double', 'long double'), opt=('float',))
IABS = lane_units('math.cpp', ['signed char', 'short', 'int', 'long', 'long long'], wide=(), opt=())


def consteval_units(tier):
    u = []

    def add(ty, alg, st, mode, opt='-O0', march=V3):
        u.append(unit('exec_consteval.cpp', 'consteval %s %s set%d %s %s %s' % (['for_each', 'transform', 'reduce', 'count_if'][alg], ty.replace(' ', '_'), st, mode, opt, march[-2:]),
                      opt, march, '-fconstexpr-ops-limit=2000000000', '-fconstexpr-loop-limit=10000000', '-DTYPE=' + ty, '-DALG=%d' % alg,
                      '-DSET=%d' % st, *([FB] if mode == 'fallback' else [])))
    for alg in range(4):
        add('int', alg, 0, 'stdlib')
        add('float', alg, 1, 'stdlib')
        add('unsigned short', alg, 1, 'fallback')
        add('double', alg, 0, 'fallback')
        add('unsigned char', alg, 1, 'stdlib')
        add('long', alg, 0, 'stdlib', '-O2')
        if tier == 'thorough':
            for ty in ('short', 'float', 'unsigned char', 'int', 'double', 'long'):
                for st in (0, 1):
                    for mode in ('stdlib', 'fallback'):
                        add(ty, alg, st, mode, '-O1')
    return u


def precond_units(tier):
    u = []
    for lvl in range(6):
        for mode in ('stdlib', 'fallback'):
            fb = [FB] if mode == 'fallback' else []
            u.append(unit('precond_ct.cpp', 'compile-time preconditions level %d %s' % (lvl, mode), '-O0', '-DLVL=%d' % lvl, *fb))
            for ty in ('int', 'float') + (('unsigned char', 'double') if tier == 'thorough' else ()):
                for opt in ('-O2', '-O0') if tier == 'thorough' else (('-O2',) if ty == 'int' else ('-O0',)):
                    u.append(unit('precond.cpp', 'preconditions level %d %s %s %s' % (lvl, ty, mode, opt), opt, V3,
                                  '-DTYPE=' + ty, '-DVIR_CHECK_PRECONDITIONS=%d' % lvl, *fb))
    for mode in ('stdlib', 'fallback'):
        u.append(unit('precond.cpp', 'preconditions default level %s' % mode, '-O2', V3, '-DTYPE=int',
                      '-DVIR_CHECK_PRECONDITIONS_DEFAULT', *([FB] if mode == 'fallback' else [])))
    return u


def permute_units(tier):
    u = []

    def add(ty, sets, mode='stdlib', opt='-O0', march=V3):
        for st in sets:
            u.append(unit('permute.cpp', 'permute %s set%d %s %s %s' % (ty.replace(' ', '_'), st, mode, opt, march[-2:]), opt, march,
                          '-DTYPE=' + ty, '-DSET=%d' % st, *([FB] if mode == 'fallback' else [])))
    add('float', (0, 1, 2, 3, 4))
    add('float', (0, 1, 2, 3, 4), 'fallback')
    add('double', (0, 3))
    add('int', (1, 4))
    add('unsigned char', (3, 2), 'stdlib')
    add('unsigned char', (1, 4), 'fallback')
    add('short', (0,), 'fallback')
    add('short', (3, 1), 'stdlib', '-O2')
    add('long', (3, 1))
    add('long double', (1,), 'fallback')
    add('float', (3, 1), 'stdlib', '-O2', V4)
    add('float', (3,), 'stdlib', '-O1', V2)
    if tier == 'thorough':
        for ty in ('signed char', 'unsigned short', 'int', 'unsigned long', 'float', 'double'):
            for mode in ('stdlib', 'fallback'):
                add(ty, (0, 1, 2, 3, 4), mode)
                add(ty, (0, 1, 2, 3), mode, '-O2')
                add(ty, (0, 1, 2, 3), mode, '-O1', V4)
                add(ty, (0, 1, 3), mode, '-O0', V2)
    u.sort(key=lambda x: ' set0 ' not in x['label'])
    restd(u, 'c++20', 'permute double set3 stdlib -O0 v3', 'permute long set1 stdlib -O0 v3', 'permute unsigned_char set4 fallback -O0 v3')
    return u


def cast_units(tier):
    u = []

    def add(ty, sets, mode='fallback', opt='-O0', march=V3, *more):
        for st in sets:
            u.append(unit('casts.cpp', 'casts %s set%d %s %s %s%s' % (ty.replace(' ', '_'), st, mode, opt, march[-2:], ''.join(' ' + m for m in more)),
                          opt, march, '-DTYPE=' + ty, '-DSET=%d' % st, *([FB] if mode == 'fallback' else []), *more))
    if tier == 'quick':
        for ty in ITYPES + FTYPES:
            add(ty, (0,))
        for ty in ('float', 'unsigned short', 'long double'):
            add(ty, (4,), 'fallback', '-O0', V3, '-DFULL')
        for ty in ('int', 'float', 'unsigned char', 'double'):
            add(ty, (1, 2, 3))
            add(ty, (2, 3), 'stdlib')
        add('long double', (2, 3))
        for ty in ('unsigned char', 'short', 'float'):
            add(ty, (5,))
        for ty in ('short', 'long', 'float'):
            add(ty, (0,), 'stdlib')
            add(ty, (3,), 'stdlib', '-O2', V4)
            add(ty, (3,), 'stdlib', '-O0', V2)
        add('int', (1, 3), 'fallback', '-O2')
        add('float', (0, 2), 'fallback', '-O2')
    else:
        for ty in ITYPES + FTYPES:
            for opt in ('-O0', '-O2'):
                add(ty, (0, 1, 2, 3, 4, 5), 'fallback', opt, V3, '-DFULL')
        for ty in ('signed char', 'unsigned char', 'short', 'unsigned int', 'int', 'long', 'float', 'double'):
            for opt, march in (('-O0', V3), ('-O2', V3), ('-O2', V4), ('-O0', V2)):
                add(ty, (0, 2, 3, 4), 'stdlib', opt, march)
    restd(u, 'gnu++17', 'casts unsigned_char set3 stdlib -O0 v3', 'casts double set3 fallback -O0 v3', 'casts int set2 fallback -O0 v3', 'casts double set2 stdlib -O0 v3', 'casts unsigned_short set0 fallback -O0 v3')
    restd(u, 'c++17', 'casts int set3 stdlib -O0 v3', 'casts double set1 fallback -O0 v3')
    return u


def simdize_units(tier):
    u = []

    def add(ty, sets, mode='stdlib', opt='-O0', march=V3):
        for st in sets:
            u.append(unit('simdize.cpp', 'simdize %s set%d %s %s %s' % (ty.replace(' ', '_'), st, mode, opt, march[-2:]), opt, march,
                          '-DTYPE=' + ty, '-DSET=%d' % st, *([FB] if mode == 'fallback' else [])))
    add('float', (0, 1, 2, 3, 4))
    add('float', (0, 1, 2, 3, 4), 'fallback')
    add('double', (0, 2))
    add('int', (0, 3, 1))
    add('short', (0, 2, 3))
    add('unsigned char', (0, 4))
    add('long', (0,))
    add('unsigned short', (0, 1, 2, 3), 'fallback')
    add('double', (0, 1, 4), 'fallback')
    add('float', (5,), 'fallback')
    add('float', (0, 1), 'stdlib', '-O2')
    add('short', (0,), 'stdlib', '-O2')
    add('float', (0, 1), 'stdlib', '-O1', V4)
    add('double', (0,), 'stdlib', '-O2', V2)
    if tier == 'thorough':
        for ty in ('signed char', 'unsigned short', 'int', 'long', 'float', 'double'):
            for mode in ('stdlib', 'fallback'):
                add(ty, (0, 1, 2, 3, 4, 5), mode)
                add(ty, (0, 1, 2, 3), mode, '-O2')
                add(ty, (0, 1), mode, '-O1', V4)
                add(ty, (0, 1), mode, '-O0', V2)
    u.sort(key=lambda x: ' set5 ' not in x['label'])
    restd(u, 'c++20', 'simdize int set0 stdlib -O0 v3', 'simdize short set3 stdlib -O0 v3', 'simdize double set1 fallback -O0 v3')
    return u


SLICES = ((1, 12), (13, 20), (21, 27), (28, 33), (34, 39), (40, 45), (46, 50))


def reflect_units(tier):
    u = []

    def add(lo, hi, kind, opt='-O0', *more):
        u.append(unit('reflect.cpp', 'reflection %d..%d members kind %d %s%s' % (lo, hi, kind, opt, ''.join(' ' + m for m in more)), opt,
                      '-DLO=%d' % lo, '-DHI=%d' % hi, '-DKIND=%d' % kind, *more))
    for lo, hi in SLICES:
        add(lo, hi, 0)
    for lo, hi in SLICES[1:3] + SLICES[5:]:
        add(lo, hi, 1)
    add(1, 12, 0, '-O0', '-DWITH_SIMD', FB)
    add(1, 9, 2, '-O2', '-DWITH_SIMD')
    add(46, 50, 2)
    if tier == 'thorough':
        for lo, hi in SLICES:
            for kind in (0, 1, 2):
                for opt in ('-O0', '-O2'):
                    add(lo, hi, kind, opt)
                    add(lo, hi, kind, opt, '-DWITH_SIMD', FB)
    return u


def const_units(tier):
    u = []
    rounds = (1,) if tier == 'quick' else range(1, 9)

    def add(st, std, rnd=1, opt='-O0'):
        u.append(unit('cw.cpp', 'constexpr_wrapper set%d %s round %d %s' % (st, std, rnd, opt), opt, '-DSET=%d' % st, '-DROUND=%d' % rnd, std=std))
    for st in (0, 1, 2, 3, 4, 6):
        add(st, 'gnu++23')
    for st in (0, 4):
        add(st, 'gnu++20')
    for r in rounds:
        add(5, 'gnu++23', r)
    if tier == 'thorough':
        for st in range(6):
            add(st, 'gnu++20', 9, '-O2')
    return u


def traits_units(tier):
    u = []

    def add(st, mode, march=V3, std='gnu++23', opt='-O0'):
        u.append(unit('traits.cpp', 'traits set%d %s %s %s %s' % (st, mode, march, std, opt), opt, march, '-DSET=%d' % st,
                      *([FB] if mode == 'fallback' else []), std=std))
    for st in (1, 5, 0, 3, 2):
        for mode in ('stdlib', 'fallback'):
            add(st, mode)
    for st in (1, 5, 2):
        add(st, 'fallback', '-mavx')
        add(st, 'fallback', V2)
        add(st, 'fallback', V4)
    add(3, 'stdlib', V4, opt='-O2')
    add(2, 'stdlib', V4, opt='-O2')
    for std in ('gnu++17', 'gnu++20'):
        add(4, 'stdlib', std=std)
        add(4, 'fallback', std=std)
    if tier == 'thorough':
        for mode in ('stdlib', 'fallback'):
            for march in (V2, '-mavx', V4):
                for st in (0, 1, 2, 3, 5):
                    add(st, mode, march, opt='-O2')
                    add(st, mode, march, std='gnu++20', opt='-O3')
    return u


def barrier_units(tier):
    u = []

    def add(ty, mode, opt='-O2', march=V3):
        u.append(unit('barrier.cpp', 'barrier %s %s %s %s' % (ty.replace(' ', '_'), mode, opt, march[-2:]), opt, march, '-DTYPE=' + ty,
                      *([FB] if mode == 'fallback' else [])))
    types = ['signed char', 'unsigned short', 'int', 'float', 'double', 'unsigned long long', 'long double', 'char32_t']
    for mode in ('stdlib', 'fallback'):
        for t in types:
            if not (mode == 'stdlib' and t == 'char32_t'):
                add(t, mode)
        for t in ('float', 'signed char'):
            add(t, mode, '-O2', V2)
            add(t, mode, '-O0')
        for t in ('float', 'unsigned short'):
            add(t, mode, '-O3', V4)
        if tier == 'thorough':
            for t in types:
                for o in ('-O0', '-O1', '-O2', '-O3', '-Os'):
                    for m in (V2, V3, V4):
                        add(t, mode, o, m)
    return u


MC_MOVE = [('MoveDesign', 'MoveDesign.cfg')]


def move_check(units, *clang_labels):
    def f(tier):
        us = units(tier)
        us += clang(us, *(clang_labels if tier == 'quick' else ()))
        return dict(spec='MoveTrace', env={}, mc=MC_MOVE, units=us, assumptions=COMMON)
    return f


CHECKS = {
    'C01': exec_check([long_units(0), foreach_units], '0', 'P3<float> set0', 'int set0 fallback'),
    'C02': exec_check([long_units(1), transform_units], '0', 'int,float->float nin2 set1'),
    'C03': exec_check([long_units(2), lambda t: reduce_units(t, 0)], '0', 'int acc int set0 fallback'),
    'C04': exec_check([long_units(3), lambda t: reduce_units(t, 1)], '0', 'int acc int set0 fallback'),
    'C05': exec_check([lambda t: [u for k in range(4) for u in long_units(k)(t) if 'huge' not in u['label'] and (t == 'thorough' or 'unsigned_char stdlib' in u['label'])], c05_units], '1', '-none-'),
    'C06': exec_check([consteval_units], '0', '-none-'),
    'C07': lane_check(MEM, 'LanesDesign'),
    'C08': lane_check(OPS, 'ScalarCheck', 'LanesDesign'),
    'C09': lane_check(WHERE, 'LanesDesign'),
    'C10': lane_check(MASK, 'LanesDesign'),
    'C11': lane_check(REDUCE, 'ReduceDesign', 'LanesDesign'),
    'C13': lambda tier: dict(spec='MathTrace', env={}, mc=[('ScalarCheck', 'ScalarCheck.cfg')], units=MATH(tier) + IABS(tier), assumptions=COMMON),
    'C12': move_check(cast_units, 'unsigned_char set1'),
    'C14': move_check(permute_units, 'unsigned_char set3'),
    'C15': move_check(simdize_units, 'float set0 stdlib -O0', 'short set2'),
    'C16': lambda tier: dict(spec='ReflectTrace', env={}, mc=[('StructSizeDesign', 'StructSizeDesign.cfg')], units=reflect_units(tier), assumptions=COMMON),
    'C17': lambda tier: dict(spec='ConstTrace', env={}, mc=[('ConstDesign', 'ConstDesign.cfg')], units=const_units(tier), assumptions=COMMON),
    'C18': lambda tier: dict(spec='PrecondTrace', env={}, mc=[], units=precond_units(tier), assumptions=COMMON),
    'C19': lambda tier: dict(spec='TraitsTrace', env={}, mc=[('TraitsDesign', 'TraitsDesign.cfg')], units=traits_units(tier), assumptions=COMMON),
    'C20': lambda tier: dict(spec='BarrierTrace', env={}, mc=[('BarrierDesign', 'BarrierDesign.cfg')], units=barrier_units(tier), assumptions=COMMON),
}

EXEC_NOTE = ('Design model checked exhaustively within its constants (n<=21, S<=9, U<=3, all alignments); every recorded execution of the '
             'real algorithms over the enumerated lengths/placements/policies/types is a behaviour of the specification. Assumes TLC and g++; '
             'inputs outside the enumerated product are not covered.')
LANE_NOTE = ('Histories of calls on the real fallback types, over all arithmetic value types and the enumerated widths, with edge-case and '
             'pseudo-random operand bit patterns, replayed by TLC against the specification, which recomputes every register after every step. '
             'Floating-point arithmetic other than sign/compare/classify is taken from a table of scalar results in the record.')
MOVE_NOTE = ('Laws of the element-movement operators checked exhaustively by TLC for vectors of up to 8 elements; every recorded call of the real '
             'code (all operations over the enumerated widths, ABIs, element types, parameters, both implementations; contents with all bit patterns '
             'including NaN payloads) equals the specified movement.')
TECHNIQUE = {
    'C01': ('TLA+ contract SimdExec; TLC refinement of the loop design; TLC trace validation of recorded for_each executions', EXEC_NOTE),
    'C02': ('TLA+ contract SimdExec; TLC refinement of the loop design; TLC trace validation of recorded transform executions', EXEC_NOTE),
    'C03': ('TLA+ contract SimdExec; TLC trace validation of recorded reduce/transform_reduce executions, results recomputed in TLA+', EXEC_NOTE),
    'C04': ('TLA+ contract SimdExec; TLC trace validation of recorded count_if executions, counts recomputed in TLA+', EXEC_NOTE),
    'C05': ('TLA+ chunking/alignment rules of SimdExec; TLC refinement and trace validation of every callable invocation', EXEC_NOTE),
    'C06': ('TLA+ contract SimdExec; TLC trace validation of executions performed inside constant expressions and of the same calls at run time', EXEC_NOTE),
    'C07': ('TLA+ register machine Lanes; TLC check of its laws; TLC trace validation of recorded load/store/constructor/subscript histories', LANE_NOTE),
    'C08': ('TLA+ scalar semantics on bit patterns (checked exhaustively against mathematics) lifted in Lanes; TLC trace validation of recorded operator histories', LANE_NOTE),
    'C09': ('TLA+ register machine Lanes (masked transitions); TLC check of its laws; TLC trace validation of recorded where-expression histories', LANE_NOTE),
    'C10': ('TLA+ register machine Lanes (mask transitions); TLC trace validation of recorded mask histories', LANE_NOTE),
    'C11': ('TLA+ tree-reduction design model (every order refines the fold); TLC trace validation of recorded reductions', LANE_NOTE),
    'C13': ('TLA+ lift of scalar functions (classification, sign and comparison defined on bit patterns, others as recorded tables); TLC trace validation', LANE_NOTE),
    'C12': ('TLA+ operators Move (split, concat, resize, casts via Scalar!IConv); TLC check of round trips; TLC trace validation of recorded calls', MOVE_NOTE),
    'C14': ('TLA+ index semantics Move; TLC check of its laws; TLC trace validation of recorded permutations and shifts', MOVE_NOTE),
    'C15': ('TLA+ AoS/SoA transposition of Move; TLC check that the two directions are inverse; TLC trace validation of recorded loads, stores, element accesses, conversions and operators of simdized types', MOVE_NOTE),
    'C16': ('TLA+ model of the struct_size bisection, checked exhaustively; TLA+ specification Reflect; TLC trace validation of recorded reflections',
            'Bisection: all aggregates of up to 20 members, every bound up to 40, every least valid initializer count. Recorded: every supported arity 1..50 '
            'with mixed, char and double members, and a list of shapes (bases, arrays, nested, bit-fields, tuple-likes). Three listed known findings.'),
    'C17': ('TLA+ semantics of C++ integer constant expressions and literals (promotions, usual conversions, literal grammar), laws checked by TLC; TLC trace validation of recorded constexpr_wrapper results',
            'Values and types of all operators over four lists of ten constants of all integer types (each with wrapper, integral_constant and run-time operands), a class type whose '
            'operators are observable, calls, subscripts; literals around every type boundary and pseudo-random ones, in every base and spelling.'),
    'C18': ('TLA+ specification of the outcome of a call as a function of precondition and check level; TLC trace validation of calls run in child processes and of compiler diagnostics',
            'All six check levels plus the default, both implementations, every length up to three chunks for six policies, every subscript class and mask pattern; compile-time part: a list of snippets. '
            'Undefined behaviour of levels 0/1 is not exercised.'),
    'C19': ('TLA+ specification Traits of type-level facts, iota, bit operators and version order, laws checked by TLC over all small type trees; TLC trace validation of recorded traits and values',
            'All arithmetic types, ABI tags, both implementations, four instruction sets; a list of type trees for the concepts and simdize widths; all versions with components up to 3 and neighbours of the current one.'),
    'C20': ('TLA+ specification Barrier (values, optimizer knowledge, pending operations), laws checked by TLC over all programs of up to six operations; TLC trace validation of recorded barrier calls',
            'Eight element types, both implementations, ABIs and widths up to 32, aggregates of up to 33 elements, -O0..-O3, three instruction sets; knowledge is observed with '
            '__builtin_constant_p, performed operations with the floating-point exception flags; g++ only.'),
}
NOT_APPLICABLE = {}
