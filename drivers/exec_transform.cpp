// C02/C05: records executions of transform.
//   -DIN1=.. -DIN2=.. -DOUT=.. -DNIN=1|2|3 -DSET=..
#include "exec_common.h"
#include <ranges>
using T1 = IN1;
using T2 = IN2;
using TO = OUT;

static tr::Arena a1(24), a2(24), a3(24), ao(24);

// the callable: logs, and returns (position + 1) computed from input Sel
template <typename R, typename V>
  R result(const V& v)
  {
    if constexpr (stdx::is_simd_v<R> && stdx::is_simd_v<V>)
      {
        if constexpr (std::same_as<R, V>)
          return v + typename V::value_type(1);
        else
          return R([&](auto i) { return static_cast<typename R::value_type>(v[i]); }) + typename R::value_type(1);
      }
    else if constexpr (std::same_as<R, V>)
      {
        R r = v;
        El<TO>::bump(r);
        return r;
      }
    else if constexpr (stdx::is_simd_v<R>) // first member, e.g. P3<float> -> float
      {
        using std::get;
        return R([&](auto i) { return static_cast<typename R::value_type>(get<0>(v)[i]); }) + typename R::value_type(1);
      }
    else // object with members derived from the number
      {
        TO tmp[V::size()];
        for (int i = 0; i < int(V::size()); ++i)
          tmp[i] = El<TO>::make(long(v[i]) + 1);
        return R(tmp, stdx::element_aligned);
      }
  }

template <int Size, typename V>
  using out_for = vir::simdize<TO, V::size()>;

template <int NI, int S, int U, Pol P, bool Flip = false>
  void
  run(long n, int pl1, int plo, int kind, bool inplace = false)
  {
    constexpr int W = S > 0 ? S : NI == 1 ? int(vir::simdize<T1>::size())
                                  : std::max(int(vir::simdize<T1>::size()), int(vir::simdize<T2>::size()));
    using OV = vir::simdize<TO, W>;
    constexpr auto pol = policy<S, U, P, Flip>();
    const unsigned char canary = 0x5b;
    if (n > std::min({max_id<T1>, max_id<T2>, max_id<TO>}))
      return;
    for (auto sz : {sizeof(T1), sizeof(T2), sizeof(TO)})
      if ((n + 400) * sz > ao.bytes)
        return;
    ao.fill(canary); a1.fill(canary); a2.fill(canary); a3.fill(canary);
    T1* const i1 = place<T1>(a1, n, pl1);
    T2* const i2 = place<T2>(a2, n, (pl1 + 1) % 4);
    T1* const i3 = place<T1>(a3, n, (pl1 + 2) % 4);
    TO* out = place<TO>(ao, n, plo);
    for (long i = 0; i < n; ++i)
      {
        new (i1 + i) T1(El<T1>::make(i));
        new (i2 + i) T2(El<T2>::make(i));
        new (i3 + i) T1(El<T1>::make(i));
        new (out + i) TO(El<TO>::make(0));
      }
    if constexpr (std::same_as<T1, TO>)
      if (inplace)
        out = reinterpret_cast<TO*>(i1);
    Log::n = 0;
    volatile long ret = -1;
    auto op1 = [](const auto& v) {
      Log::call(1, v.size(), first_id<T1>(v));
      return result<vir::simdize<TO, std::decay_t<decltype(v)>::size()>>(v);
    };
    auto op2 = [](const auto& v, const auto& w) {
      static_assert(std::decay_t<decltype(v)>::size() == std::decay_t<decltype(w)>::size());
      Log::call(1, v.size(), first_id<T1>(v), first_id<T2>(w));
      return result<vir::simdize<TO, std::decay_t<decltype(v)>::size()>>(w);
    };
    const int fault = tr::guarded([&] {
      if constexpr (NI == 1)
        switch (kind % 3)
        {
          case 0: ret = vir::transform(pol, i1, i1 + n, out, op1) - out; break;
          case 1: ret = std::transform(pol, i1, i1 + n, out, op1) - out; break;
          case 2:
            {
              std::span<TO> o(out, n);
              ret = vir::transform(pol, std::span<const T1>(i1, n), o, op1) - o.begin();
              break;
            }
        }
      else if constexpr (NI == 2)
        switch (kind % 3)
        {
          case 0: ret = vir::transform(pol, i1, i1 + n, i2, out, op2) - out; break;
          case 1: ret = std::transform(pol, i1, i1 + n, static_cast<const T2*>(i2), out, op2) - out; break;
          case 2:
            {
              std::span<TO> o(out, n);
              ret = vir::transform(pol, std::span<const T1>(i1, n), std::span<const T2>(i2, n), o, op2) - o.begin();
              break;
            }
        }
      else
        {
#if __cpp_lib_ranges_zip >= 202110L
          std::span<TO> o(out, n);
          std::span<T1> s1(i1, n), s3(i3, n);
          std::span<T2> s2(i2, n);
          if (kind % 2 == 0)
            ret = vir::transform(pol, std::views::zip(s1, s2, s3), o, [](const auto& t) {
                    const auto& [x, y, z] = t;
                    Log::call(1, x.size(), first_id<T1>(x), first_id<T2>(y), first_id<T1>(z));
                    return result<vir::simdize<TO, std::decay_t<decltype(x)>::size()>>(z);
                  }) - o.begin();
          else
            ret = vir::transform(pol, std::views::zip(s1, s2), o, [](const auto& t) {
                    const auto& [x, y] = t;
                    Log::call(1, x.size(), first_id<T1>(x), first_id<T2>(y));
                    return result<vir::simdize<TO, std::decay_t<decltype(x)>::size()>>(y);
                  }) - o.begin();
#endif
        }
    });
    std::vector<long> delta;
    long inchg = 0;
    const bool alias = static_cast<const void*>(out) == static_cast<const void*>(i1);
    for (long i = 0; i < n; ++i)
      {
        long x = El<TO>::id(out[i]);
        delta.push_back(x < 0 ? -77 : sizeof(TO) == 1 ? (x - i) & 255 : x - i);
        inchg += (!alias && El<T1>::id(i1[i]) != i) + (El<T2>::id(i2[i]) != i) + (El<T1>::id(i3[i]) != i);
      }
    const long oob = (alias ? 0 : ao.changed(canary, out, out + n)) + a1.changed(canary, i1, i1 + n)
                       + a2.changed(canary, i2, i2 + n) + a3.changed(canary, i3, i3 + n);
    tr::Out o;
    o.str("alg", "transform").num("n", n).num("S", W).num("U", U > 1 ? U : 1)
     .num("sz", sizeof(TO)).num("ma", mem_align<OV>()).num("off", offset_of(out, std::max(mem_align<OV>(), 1l)))
     .str("pol", pol_name(P)).raw("calls", Log::json()).raw("delta", tr::rle(delta))
     .num("oob", oob).num("inchg", inchg).num("fault", fault).num("ret", ret);
    o.emit(std::string(LABEL) + " inputs=" + std::to_string(NI) + " S=" + std::to_string(S) + " U="
             + std::to_string(U) + " " + pol_name(P) + " place=" + std::to_string(pl1) + ","
             + std::to_string(plo) + " kind=" + std::to_string(kind) + (inplace ? " inplace" : ""));
  }

template <int NI, int S, int U, Pol P, bool Flip = false>
  void
  sweep()
  {
    constexpr int W = S > 0 ? S : NI == 1 ? int(vir::simdize<T1>::size())
                                  : std::max(int(vir::simdize<T1>::size()), int(vir::simdize<T2>::size()));
    using OV = vir::simdize<TO, W>;
    const long UU = U > 1 ? U : 1;
    const long A = std::max(1l, mem_align<OV>() / long(sizeof(TO)));
    const bool th = tr::thorough();
    std::vector<long> ns;
    for (long n = 0; n <= std::min(W * UU * (UU > 1 ? 2 : 3) + W + 2, th ? 600l : 140l); ++n)
      ns.push_back(n);
    for (long k : {UU + 1, 2 * UU, 3 * UU + 1})
      for (long d : {-1, 0, 1, W / 2})
        ns.push_back(k * W + d);
    tr::Rng rng(tr::seed() * 77 + W * 7 + U);
    for (int i = 0; i < (th ? 60 : 6); ++i)
      ns.push_back(rng.below(6 * W * UU + 40));
    if (P == autop && sizeof(TO) > 1)
      for (long b : {3968l, 4000l, 4004l, 4032l, 4100l})
        ns.push_back(b / long(sizeof(TO)) + 1);
    int kind = 0;
    for (long n : ns)
      {
        if (n < 0 || (P == match && n % W))
          continue;
        run<NI, S, U, P, Flip>(n, 0, 0, kind++);
        run<NI, S, U, P, Flip>(n, 1, 1, kind++);
        if (std::same_as<T1, TO>)
          run<NI, S, U, P, Flip>(n, 3, 0, kind++, true);
        if ((P == aligned || P == autop) && A > 1)
          for (long o = 0; o < A; ++o)
            if (th || A <= 8 || (o + n) % 3 == 0)
              run<NI, S, U, P, Flip>(n, 2 + (o * 3 + n) % 5, 2 + o, kind++);
        if (P == none || P == match)
          run<NI, S, U, P, Flip>(n, 4, 3, kind++);
      }
  }

int main()
{
  tr::install();
#if SET == 0
  sweep<NIN, 0, 0, none>(); sweep<NIN, 0, 0, aligned>(); sweep<NIN, 0, 0, autop>(); sweep<NIN, 0, 0, match>();
  sweep<NIN, 0, 2, none>(); sweep<NIN, 0, 3, aligned>(); sweep<NIN, 0, 4, autop>(); sweep<NIN, 0, 5, match>();
#elif SET == 1
  sweep<NIN, 1, 0, none>(); sweep<NIN, 1, 3, aligned>(); sweep<NIN, 2, 0, aligned>(); sweep<NIN, 3, 2, none>();
  sweep<NIN, 4, 0, autop, true>(); sweep<NIN, 5, 0, aligned>(); sweep<NIN, 7, 3, none>(); sweep<NIN, 8, 2, aligned>();
  sweep<NIN, 12, 0, none>(); sweep<NIN, 16, 0, autop>();
#elif SET == 2
  sweep<NIN, 31, 0, none>(); sweep<NIN, 32, 0, aligned>(); sweep<NIN, 32, 2, none>(); sweep<NIN, 16, 4, match>();
#elif SET == 3
  sweep<NIN, 64, 0, none>(); sweep<NIN, 100, 0, none>(); sweep<NIN, 33, 2, aligned>();
#elif SET == 6 // widths that are no multiple of the alignment
  sweep<NIN, 6, 0, aligned>(); sweep<NIN, 10, 2, aligned>(); sweep<NIN, 20, 0, aligned>(); sweep<NIN, 20, 2, autop>();
  sweep<NIN, 24, 0, aligned>(); sweep<NIN, 28, 0, autop>();
#elif SET == 4 // long unrolling
  sweep<NIN, 1, 17, none>(); sweep<NIN, 2, 9, aligned>(); sweep<NIN, 4, 12, none>(); sweep<NIN, 0, 11, autop>();
#endif
  return 0;
}
