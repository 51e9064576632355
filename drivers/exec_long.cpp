// C01..C05: executions over long ranges (up to a million elements, or -DHUGE_RANGE: more than 2^32).
//   -DTYPE=<element type> -DALG=0 (for_each) | 1 (transform) | 2 (reduce) | 3 (count_if)
// Calls with full width at consecutive positions are recorded as runs.
#include "exec_common.h"
#include <functional>
using T = TYPE;

constexpr long Base = 1 << 20;
constexpr bool indexed = sizeof(T) >= 4;          // an element identifies its position
constexpr long per = indexed ? 256 : 251;
static_assert(std::is_unsigned_v<T>);
static T value(long i) { return indexed ? T(i) : T(i % 251); }

static std::string big(long x) { return "[" + std::to_string(x / Base) + "," + std::to_string(x % Base) + "]"; }

// ---- call log -----------------------------------------------------------------------------------
struct Run { long args, w, m, p; };
static std::vector<Run> runs;
static long len, hint, full, low;     // low: all positions below were seen
static const T* base;
static bool lost;
static bool ordered;
static std::vector<bool> seen;

static void log_call(long args, long w, long p)
{
  if (not runs.empty() and w == full)
    {
      Run& r = runs.back();
      if (r.args == args and r.w == w and r.p + r.m * args * w == p and r.m * args * w < (1l << 29))
        {
          ++r.m;
          return;
        }
    }
  if (runs.size() < 20000)
    runs.push_back({args, w, 1, p});
}

static std::string runs_json()
{
  std::string s = "[";
  for (std::size_t i = 0; i < runs.size(); ++i)
    {
      const Run& r = runs[i];
      s += (i ? ",[" : "[") + std::to_string(r.args) + "," + std::to_string(r.w) + "," + std::to_string(r.m) + ","
             + (r.p < 0 ? "0,-1" : std::to_string(r.p / Base) + "," + std::to_string(r.p % Base)) + "]";
    }
  return s + "]";
}

template <typename V>
  static bool matches(const V& v, long p)
  {
    if (p < 0 or p + long(V::size()) > len)
      return false;
    if (V(base + p, stdx::element_aligned)[0] != v[0])
      return false;
    return all_of(V(base + p, stdx::element_aligned) == v);
  }

template <typename V>
  static long position(const V& v)
  {
    long p = hint;
    if constexpr (indexed)
      {
        p = long(v[0]);
        for (int i = 1; i < int(V::size()); ++i)
          if (T(v[i]) != T(p + i))
            return -1;
      }
    else if (not matches(v, p))
      {
        p = -1;
        if (ordered)
          return -1;
        if (seen.empty())     // too long to search: give up on positions, judge the result only
          lost = true;
        while (low < long(seen.size()) and seen[low])
          ++low;
        for (long q = low; q < long(seen.size()); ++q)
          if (not seen[q] and matches(v, q))
            {
              p = q;
              break;
            }
        if (p < 0)
          return -1;
      }
    for (long i = 0; not seen.empty() and i < long(V::size()); ++i)
      seen[p + i] = true;
    hint = p + V::size();
    return p;
  }

template <typename... Vs>
  static void log_args(const Vs&... vs)
  {
    long p0 = -1, k = 0;
    ((k == 0 ? void(p0 = position(vs)) : void(position(vs) == p0 + k * long(vs.size()) ? 0 : (p0 = -1)), ++k), ...);
    log_call(sizeof...(vs), std::max({long(vs.size())...}), p0);
  }

// ---- one execution --------------------------------------------------------------------------------
struct Range { T* first; long n; };

template <int S, int U, Pol P>
  void
  run(T* const first, T* const out, long n, long win, int turn, auto&& oob, const std::string& where)
  {
    using V = vir::simdize<T, S>;
    constexpr auto pol = policy<S, U, P>();
    if (P == match and n % long(V::size()))
      return;
    T* const last = first + n;
    runs.clear();
    len = n; hint = 0; low = 0; full = V::size(); base = first; lost = false; ordered = ALG == 0;
    seen.assign(n <= (1 << 21) and not indexed ? n : 0, false);
    volatile long ret = -1;
    long arg = 7, init = 0;
    bool wb = false, logged = true;
#if ALG == 0
    wb = win == n and turn % 2 == 0;
    const int fault = tr::guarded([&] {
      if (wb)
        vir::for_each(pol, first, last, [](auto&... vs) { log_args(vs...); ((vs += T(1)), ...); });
      else
        vir::for_each(pol, first, last, [](const auto&... vs) { log_args(vs...); });
    });
    const char* alg = "for_each";
#elif ALG == 1
    const int fault = tr::guarded([&] {
      auto op = [](const auto& v) { log_args(v); return v + T(1); };
      if (turn % 2)
        ret = vir::transform(pol, first, last, out, op) - out;
      else
        ret = vir::transform(pol, first, last, first, out, [](const auto& v, const auto& w) {
                log_args(v); return v + T(1) + (w - v); }) - out;
    });
    const char* alg = "transform";
#elif ALG == 2
    init = turn % 3;
    const int fault = tr::guarded([&] {
      if (turn % 4 == 3 and not indexed)
        {
          logged = false;
          ret = long(vir::reduce(pol, first, last, T(init)));
        }
      else
        ret = long(vir::transform_reduce(pol, first, last, T(init), std::plus<>(), [](const auto& v) {
                log_args(v);
                if constexpr (indexed) return v & T(255); else return v; }));
    });
    const char* alg = "reduce";
#else
    arg = win == n ? (turn * 37) % 240 : 245;
    static long sarg;
    sarg = arg;
    const int fault = tr::guarded([&] {
      ret = vir::count_if(pol, first, last, [](const auto& v) {
              log_args(v);
              if constexpr (indexed) return (v & T(255)) > T(sarg); else return v > T(sarg); });
    });
    const char* alg = "count_if";
#endif
    logged = logged and not lost;
    std::vector<long> delta;
    long inchg = 0;
    for (long i = 0; i < win; ++i)
      {
        const long d = long(T(first[i] - value(i)));
        if (ALG == 0)
          delta.push_back(d);
        else
          inchg += d != 0;
        if (ALG == 1)
          delta.push_back(long(T(out[i] - value(i))));
      }
    tr::Out o;
    o.str("alg", alg).raw("n", big(n)).num("S", V::size()).num("U", U > 1 ? U : 1)
     .num("sz", sizeof(T)).num("ma", mem_align<V>()).num("off", offset_of(ALG == 1 ? out : first, std::max(mem_align<V>(), 1l)))
     .str("pol", pol_name(P)).num("wb", wb).num("logged", logged).raw("calls", logged ? runs_json() : "[]").num("win", win)
     .raw("delta", tr::rle(delta)).num("per", per).num("init", init).num("arg", arg)
     .num("mod", ALG == 2 and not indexed ? 1l << (8 * sizeof(T)) : 0).num("inchg", inchg).num("oob", oob()).num("fault", fault);
    if (ALG == 1)
      o.raw("ret", big(ret < 0 ? 0 : ret));
    else
      o.num("ret", ret);
    o.emit(std::string(LABEL) + " S=" + std::to_string(S) + " U=" + std::to_string(U) + " " + pol_name(P) + where);
  }

#if HUGE_RANGE
// a window of 251 pages mapped over and over
static constexpr long window = 251 * 4096;
static T* huge(long n)
{
  int fd = memfd_create("w", 0);
  if (fd < 0)
    fd = fileno(std::tmpfile());
  if (fd < 0 or ftruncate(fd, window))
    std::_Exit(70);
  const long k = n * long(sizeof(T)) / window + 1;
  char* p = static_cast<char*>(mmap(nullptr, (k + 2) * window, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (p == MAP_FAILED)
    std::_Exit(70);
  for (long i = 1; i <= k; ++i)
    if (mmap(p + i * window, window, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
      std::_Exit(70);
  // the range ends at an inaccessible page
  return reinterpret_cast<T*>(p + (k + 1) * window) - n;
}

int main()
{
  tr::install();
  for (long n : {(1l << 32) + 41, (1l << 31) + 5})
    {
      static T* last_in = nullptr;
      T* const in = huge(n);
      T* const out = ALG == 1 ? huge(n) : nullptr;
      const long win = window / sizeof(T);
      for (long i = 0; i < win; ++i)
        in[i] = value(i);
      (void)last_in;
      auto ok = [] { return 0l; };
      if (n > (1l << 32))
        {
          run<0, 0, none>(in, out, n, win, 0, ok, " 2^32+41");
          run<0, 2, aligned>(in, out, n, win, 1, ok, " 2^32+41");
          run<25, 0, none>(in, out, n, win, 2, ok, " 2^32+41 width 25");
        }
      else
        run<16, 0, autop>(in, out, n, win, 3, ok, " 2^31+5");
    }
}
#else
static tr::Arena a1(540), a2(540);

template <int S, int U, Pol P>
  void
  sweep(int turn)
  {
    std::vector<long> ns = {127, 128, 129, 255, 256, 257, 511, 513, 1021, 4097, 8209, 16384, 32767, 32768, 32771, 65535, 65536, 65543, 131075};
    if (tr::thorough())
      for (long k = 7; k <= 20; ++k)
        for (long d = -3; d <= 37; d += 5)
          ns.push_back((1l << k) + d);
    for (long n : ns)
      for (int pl : {0, 1, 3})
        {
          if ((n + 600) * long(sizeof(T)) > long(a1.bytes))
            continue;
          ++turn;
          if (P == match)
            n -= n % long(vir::simdize<T, S>::size());
          const unsigned char canary = 0x5b;
          a1.fill(canary); a2.fill(canary);
          T* const in = place<T>(a1, n, pl);
          T* const out = place<T>(a2, n, (pl + 1) % 4);
          for (long i = 0; i < n; ++i)
            in[i] = value(i);
          run<S, U, P>(in, out, n, n, turn, [&] {
            return a1.changed(canary, in, in + n) + (ALG == 1 ? a2.changed(canary, out, out + n) : 0);
          }, " place=" + std::to_string(pl));
        }
  }

int main()
{
  tr::install();
  sweep<0, 0, none>(0); sweep<0, 0, aligned>(1); sweep<0, 3, autop>(2); sweep<0, 4, none>(3);
  sweep<8, 0, match>(1); sweep<7, 2, none>(2); sweep<1, 0, none>(3);
}
#endif
