// C03/C04/C05: records executions of reduce, transform_reduce (-DWHAT=0) and count_if (-DWHAT=1).
//   -DTYPE=<element type> -DACC=<accumulator type> -DSET=..
#include "exec_common.h"
#include <functional>
using T = TYPE;
using Acc = ACC;

static tr::Arena a1(24), a2(24);

// 251 distinct values: a chunk identifies its position
static long D(long s, long i) { const long k = (i + 5 * s) % 251; return k * k * k % 251 + 1; }

static T* first1;
static T* first2;
static long dseed, len;

// Position of a chunk: the reductions see arbitrary data, so the position is found by searching the
// lanes in the input array (smallest position that matches and is not below the expected next one).
static long hint = 0;

template <typename V>
  static long position(const V& v, const T* base)
  {
    if (Log::n == 0)
      hint = 0;
    auto at = [&](long p) {
      if (p < 0 || p + long(V::size()) > len)
        return false;
      for (int i = 0; i < int(V::size()); ++i)
        if (T(v[i]) != base[p + i])
          return false;
      return true;
    };
    if (at(hint))
      {
        long r = hint;
        hint += V::size();
        return r;
      }
    for (long p = 0; p < len; ++p)
      if (at(p))
        {
          hint = p + V::size();
          return p;
        }
    return -1;
  }

enum Rop { plus, rmin, rmax, rxor };
static const char* rop_name[] = {"plus", "min", "max", "xor"};

template <int K>
  struct RopF
  {
    template <typename A, typename B>
      auto operator()(const A& a, const B& b) const
      {
        if constexpr (K == plus) return A(a + b);
        else if constexpr (K == rmin) { using std::min; return A(min(a, b)); }
        else if constexpr (K == rmax) { using std::max; return A(max(a, b)); }
        else return A(a ^ b);
      }
  };

template <typename A, typename V>
  auto to_acc(const V& v)
  {
    if constexpr (std::same_as<typename V::value_type, A>)
      return v;
    else
      return vir::simdize<A, V::size()>([&](auto i) { return static_cast<A>(T(v[i])); });
  }

// how: which overload
template <int S, int U, Pol P, int K, int H, bool Flip = false>
  void
  reduce_run(long n, int pl, int turn)
  {
    constexpr int W = S > 0 ? S : int(vir::simdize<T>::size());
    using V = vir::simdize<T, W>;
    constexpr auto pol = policy<S, U, P, Flip>();
    const unsigned char canary = 0x5b;
    if ((n + 400) * sizeof(T) > a1.bytes)
      return;
    a1.fill(canary); a2.fill(canary);
    first1 = place<T>(a1, n, pl);
    first2 = place<T>(a2, n, (pl + 1) % 4);
    len = n;
    dseed = (turn + n) % 7 + tr::seed() % 5;
    for (long i = 0; i < n; ++i)
      {
        new (first1 + i) T(T(D(dseed, i)));
        new (first2 + i) T(T(D(dseed + 1, i)));
      }
    // the position oracle needs distinguishable chunks: rely on the hint (ascending order) first
    Log::n = 0;
    long init = 5 + turn % 4;
    const char* tf = "id";
    bool logged = true;
    volatile long ret = -1;
    T* const f1 = first1; T* const l1 = first1 + n; T* const f2 = first2;
    auto t_id = [](const auto& v) { Log::call(1, v.size(), position(v, first1)); return to_acc<Acc>(v); };
    auto t_add2 = [](const auto& v) { Log::call(1, v.size(), position(v, first1)); return to_acc<Acc>(v) + Acc(2); };
    auto t_suba = [](const auto& v, const auto& w) {
      const long p = position(v, first1);
      bool same = true;
      for (int i = 0; i < int(v.size()); ++i)
        same = same && p >= 0 && T(w[i]) == first2[p + i];
      Log::call(1, v.size(), p, same ? p : -1);
      return to_acc<Acc>(v) * Acc(3) - to_acc<Acc>(w) + Acc(251);
    };
    const std::span<const T> s1(f1, n), s2(f2, n);
    auto pick = [&]<int how>(std::integral_constant<int, how>) {
      if constexpr (how < 9 && (K != plus || not std::same_as<T, Acc>))
        {
          if constexpr (std::same_as<T, Acc>)
            {
              logged = false;
              if constexpr (how % 3 == 0)
                ret = long(vir::reduce(pol, f1, l1, Acc(init), RopF<K>()));
              else if constexpr (how % 3 == 1)
                ret = long(vir::reduce(pol, s1, Acc(init), RopF<K>()));
              else
                ret = long(std::reduce(pol, f1, l1, Acc(init), RopF<K>()));
            }
          else
            ret = long(vir::transform_reduce(pol, f1, l1, Acc(init), RopF<K>(), t_id));
        }
      else if constexpr (how < 9)
        {
          logged = false;
          if constexpr (how < 3) init = 0;
          if constexpr (how >= 6) tf = "mul";
          if constexpr (how == 0) ret = long(vir::reduce(pol, f1, l1));
          else if constexpr (how == 1) ret = long(vir::reduce(pol, s1));
          else if constexpr (how == 2) ret = long(std::reduce(pol, f1, l1));
          else if constexpr (how == 3) ret = long(vir::reduce(pol, f1, l1, Acc(init)));
          else if constexpr (how == 4) ret = long(vir::reduce(pol, s1, Acc(init)));
          else if constexpr (how == 5) ret = long(std::reduce(pol, f1, l1, Acc(init)));
          else if constexpr (how == 6) ret = long(vir::transform_reduce(pol, f1, l1, f2, Acc(init)));
          else if constexpr (how == 7) ret = long(vir::transform_reduce(pol, s1, s2, Acc(init)));
          else ret = long(std::transform_reduce(pol, f1, l1, f2, Acc(init)));
        }
      else if constexpr (how == 9) ret = long(vir::transform_reduce(pol, f1, l1, Acc(init), RopF<K>(), t_id));
      else if constexpr (how < 12)
        {
          tf = "add2";
          if constexpr (how == 10) ret = long(std::transform_reduce(pol, f1, l1, Acc(init), RopF<K>(), t_add2));
          else ret = long(vir::transform_reduce(pol, s1, Acc(init), RopF<K>(), t_add2));
        }
      else
        {
          tf = "suba";
          if constexpr (how == 12) ret = long(vir::transform_reduce(pol, f1, l1, f2, Acc(init), RopF<K>(), t_suba));
          else if constexpr (how == 13) ret = long(vir::transform_reduce(pol, s1, s2, Acc(init), RopF<K>(), t_suba));
          else ret = long(std::transform_reduce(pol, f1, l1, f2, Acc(init), RopF<K>(), t_suba));
        }
    };
    const int fault = tr::guarded([&] {
      switch (turn % 4)
      {
        case 0: pick(std::integral_constant<int, H % 6>()); break;           // plain overloads
        case 1: pick(std::integral_constant<int, H % 3 == 0 ? 12 : H % 3 == 1 ? 13 : 14>()); break; // two ranges
        case 2: pick(std::integral_constant<int, H % 3 == 0 ? 9 : H % 3 == 1 ? 10 : 11>()); break;  // one range
        default:
          // products of large ranges would not be exact in float
          if (n < 500) pick(std::integral_constant<int, (H + 6) % 9>());
          else pick(std::integral_constant<int, H % 3 == 0 ? 9 : H % 3 == 1 ? 10 : 11>());
      }
    });
    long inchg = 0;
    for (long i = 0; i < n; ++i)
      inchg += (first1[i] != T(D(dseed, i))) + (first2[i] != T(D(dseed + 1, i)));
    tr::Out o;
    o.str("alg", "reduce").num("n", n).num("S", W).num("U", U > 1 ? U : 1)
     .num("sz", sizeof(T)).num("ma", mem_align<V>()).num("off", offset_of(first1, std::max(mem_align<V>(), 1l)))
     .str("pol", pol_name(P)).num("logged", logged).raw("calls", logged ? Log::json() : "[]")
     .num("seed", dseed).num("init", init).str("rop", rop_name[K]).str("tf", tf)
     .num("mod", std::is_integral_v<Acc> && std::is_unsigned_v<Acc> && sizeof(Acc) < 4 ? 1l << (8 * sizeof(Acc)) : 0)
     .num("oob", a1.changed(canary, f1, l1) + a2.changed(canary, f2, f2 + n)).num("inchg", inchg)
     .num("fault", fault).num("ret", ret);
    o.emit(std::string(LABEL) + " reduce how=" + std::to_string(H) + "/" + std::to_string(turn % 4) + " S=" + std::to_string(S) + " U="
             + std::to_string(U) + " " + pol_name(P) + " place=" + std::to_string(pl));
  }

template <int S, int U, Pol P, int K, bool Flip = false>
  void
  count_run(long n, int pl, int how)
  {
    constexpr int W = S > 0 ? S : int(vir::simdize<T>::size());
    using V = vir::simdize<T, W>;
    constexpr auto pol = policy<S, U, P, Flip>();
    const unsigned char canary = 0x5b;
    if ((n + 400) * sizeof(T) > a1.bytes)
      return;
    a1.fill(canary);
    first1 = place<T>(a1, n, pl);
    len = n;
    dseed = (how + n) % 7 + tr::seed() % 5;
    for (long i = 0; i < n; ++i)
      new (first1 + i) T(T(D(dseed, i)));
    Log::n = 0;
    T* const f1 = first1; T* const l1 = first1 + n;
    const std::span<const T> s1(f1, n);
    static long arg;
    const char* pred = "gt";
    arg = 40 + (n * 7 + how) % 160;
    volatile long ret = -1;
    auto p_gt = [](const auto& v) { Log::call(1, v.size(), position(v, first1)); return v > T(arg); };
    auto p_lt = [](auto v) { Log::call(1, v.size(), position(v, first1)); auto r = v < T(arg); v = T(0); return r; };
    auto p_all = [](auto v) { Log::call(1, v.size(), position(v, first1)); return v == v; };
    auto p_none = [](auto v) { Log::call(1, v.size(), position(v, first1)); return v != v; };
    const int fault = tr::guarded([&] {
      switch (how % 6)
      {
        case 0: ret = vir::count_if(pol, f1, l1, p_gt); break;
        case 1: ret = vir::count_if(pol, s1, p_gt); break;
        case 2: ret = std::count_if(pol, f1, l1, p_lt); pred = "lt"; break;
        case 3: ret = vir::count_if(pol, f1, l1, p_all); pred = "all"; break;
        case 4: ret = vir::count_if(pol, f1, l1, p_none); pred = "none"; break;
        case 5: ret = vir::count_if(pol, s1, p_lt); pred = "lt"; break;
      }
    });
    long inchg = 0;
    for (long i = 0; i < n; ++i)
      inchg += first1[i] != T(D(dseed, i));
    tr::Out o;
    o.str("alg", "count_if").num("n", n).num("S", W).num("U", U > 1 ? U : 1)
     .num("sz", sizeof(T)).num("ma", mem_align<V>()).num("off", offset_of(first1, std::max(mem_align<V>(), 1l)))
     .str("pol", pol_name(P)).num("logged", 1).raw("calls", Log::json())
     .num("seed", dseed).str("pred", pred).num("arg", arg)
     .num("oob", a1.changed(canary, f1, l1)).num("inchg", inchg).num("fault", fault).num("ret", ret);
    o.emit(std::string(LABEL) + " count_if how=" + std::to_string(how) + " S=" + std::to_string(S) + " U="
             + std::to_string(U) + " " + pol_name(P) + " place=" + std::to_string(pl));
  }

template <int H, int S, int U, Pol P, int K = plus, bool Flip = false>
  void
  sweep()
  {
    constexpr int W = S > 0 ? S : int(vir::simdize<T>::size());
    using V = vir::simdize<T, W>;
    const long UU = U > 1 ? U : 1;
    const long A = std::max(1l, mem_align<V>() / long(sizeof(T)));
    const bool th = tr::thorough();
    std::vector<long> ns;
    for (long n = 0; n <= std::min(W * UU * (UU > 1 ? 2 : 3) + W + 2, th ? 600l : 140l); ++n)
      ns.push_back(n);
    for (long k : {2 * UU, 3 * UU, 3 * UU + 1})
      for (long d : {-1, 0, 1, W / 2})
        ns.push_back(k * W + d);
    tr::Rng rng(tr::seed() * 77 + W * 7 + U);
    for (int i = 0; i < (th ? 60 : 6); ++i)
      ns.push_back(rng.below(6 * W * UU + 40));
    if (P == autop)
      for (long b : {3996l, 4000l, 4004l, 4100l})
        ns.push_back(b / long(sizeof(T)) + 1);
    int how = 0;
    auto go = [&](long n, int pl) {
#if WHAT == 0
      reduce_run<S, U, P, K, H, Flip>(n, pl, how++ + n % 3);
#else
      count_run<S, U, P, K, Flip>(n, pl, how++ % 6);
#endif
    };
    for (long n : ns)
      {
        if (n < 0 || (P == match && n % W))
          continue;
        go(n, 0);
        go(n, 1);
        if ((P == aligned || P == autop) && A > 1)
          for (long o = 0; o < A; ++o)
            if (th || A <= 8 || (o + n) % 3 == 0)
              go(n, 2 + o);
        if (P == none || P == match)
          go(n, 3);
      }
  }

#ifndef HB
#define HB 0
#endif
int main()
{
  tr::install();
#if SET == 0
  sweep<HB + 1, 0, 0, none>(); sweep<HB + 2, 0, 0, aligned>(); sweep<HB + 3, 0, 0, autop, rmax>(); sweep<HB + 4, 0, 0, match, rmin>();
  sweep<HB + 5, 0, 2, none>(); sweep<HB + 6, 0, 3, aligned>(); sweep<HB + 7, 0, 4, autop>(); sweep<HB + 8, 0, 2, match>();
  sweep<HB + 9, 0, 5, none>(); sweep<HB + 10, 0, 8, none>();
#elif SET == 1
  sweep<HB + 11, 1, 0, none>(); sweep<HB + 12, 1, 3, none>(); sweep<HB + 13, 2, 0, aligned>(); sweep<HB + 14, 3, 0, none>(); sweep<HB + 15, 3, 2, none, rmax>();
  sweep<HB + 16, 4, 0, autop, plus, true>(); sweep<HB + 17, 5, 0, none>(); sweep<HB + 18, 6, 3, match>(); sweep<HB + 19, 7, 3, aligned>(); sweep<HB + 20, 8, 2, aligned>();
  sweep<HB + 21, 12, 0, none, rmin>(); sweep<HB + 22, 16, 0, autop>();
#elif SET == 2
  sweep<HB + 23, 31, 0, none>(); sweep<HB + 24, 32, 0, aligned>(); sweep<HB + 25, 32, 2, none>(); sweep<HB + 26, 20, 6, none>(); sweep<HB + 27, 9, 7, none>();
#elif SET == 3
  sweep<HB + 28, 64, 0, none>(); sweep<HB + 29, 100, 0, none>(); sweep<HB + 30, 33, 2, aligned>();
#elif SET == 4 // bitwise
  sweep<HB + 31, 0, 0, aligned, rxor>(); sweep<HB + 32, 0, 3, none, rxor>(); sweep<HB + 33, 5, 2, none, rxor>(); sweep<HB + 34, 0, 7, autop, rxor>();
#elif SET == 6 // widths that are no multiple of the alignment
  sweep<HB + 40, 6, 0, aligned>(); sweep<HB + 41, 10, 2, aligned>(); sweep<HB + 42, 20, 0, aligned>(); sweep<HB + 43, 20, 2, autop>();
  sweep<HB + 44, 24, 0, aligned, rmax>(); sweep<HB + 45, 28, 0, autop>();
#elif SET == 5 // long unrolling
  sweep<HB + 35, 1, 17, none>(); sweep<HB + 36, 2, 9, aligned>(); sweep<HB + 37, 4, 12, none>(); sweep<HB + 38, 0, 11, none, rmax>();
  sweep<HB + 39, 2, 33, none>();
#endif
  return 0;
}
