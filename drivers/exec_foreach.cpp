// C01/C05: records executions of for_each.   -DTYPE=<element type> -DSET=<policy set>
#include "exec_common.h"
using T = TYPE;

static tr::Arena arena(24);

enum Form { ref, val, cref };

template <typename P, typename F>
  void invoke_kind(int kind, P pol, T* first, T* last, F&& f)
  {
    switch (kind)
    {
      case 0: vir::for_each(pol, first, last, f); break;
      case 1: std::for_each(pol, first, last, f); break;
      case 2: vir::for_each(pol, std::span<T>(first, last), f); break;
      default: vir::for_each(pol, std::span<T>(first, last).begin(), std::span<T>(first, last).end(), f); break;
    }
  }

template <int S, int U, Pol P, Form F, bool Const = false, bool Flip = false>
  void
  run(long n, int pl, int kind)
  {
    using V = vir::simdize<T, S>;
    constexpr auto pol = policy<S, U, P, Flip>();
    const unsigned char canary = 0x5b;
    if (n > max_id<T> || (n + 400) * sizeof(T) > arena.bytes)
      return;
    arena.fill(canary);
    T* const first = place<T>(arena, n, pl);
    T* const last = first + n;
    for (long i = 0; i < n; ++i)
      new (first + i) T(El<T>::make(i));
    Log::n = 0;
    auto go = [&](auto&& f) {
      if constexpr (Const)
        vir::for_each(pol, static_cast<const T*>(first), static_cast<const T*>(last), f);
      else
        invoke_kind(kind, pol, first, last, f);
    };
    const int fault = tr::guarded([&] {
      if constexpr (F == ref)
        go([](auto&... vs) {
          long p0 = -1, k = 0;
          ((k == 0 ? void(p0 = first_id<T>(vs))
                   : void(first_id<T>(vs) == p0 + k * long(vs.size()) ? 0 : (p0 = -1)), ++k), ...);
          const long w = std::max({long(vs.size())...});
          Log::call(sizeof...(vs), w, p0);
          if constexpr (not Const)
            (El<T>::bump(vs), ...);
        });
      else if constexpr (F == val)
        go([](auto... vs) {
          long p0 = -1, k = 0;
          ((k == 0 ? void(p0 = first_id<T>(vs))
                   : void(first_id<T>(vs) == p0 + k * long(vs.size()) ? 0 : (p0 = -1)), ++k), ...);
          Log::call(sizeof...(vs), std::max({long(vs.size())...}), p0);
          (El<T>::bump(vs), ...); // modifies a copy
        });
      else
        go([](const auto&... vs) {
          long p0 = -1, k = 0;
          ((k == 0 ? void(p0 = first_id<T>(vs))
                   : void(first_id<T>(vs) == p0 + k * long(vs.size()) ? 0 : (p0 = -1)), ++k), ...);
          Log::call(sizeof...(vs), std::max({long(vs.size())...}), p0);
        });
    });
    std::vector<long> delta;
    for (long i = 0; i < n; ++i)
      {
        long x = El<T>::id(first[i]);
        delta.push_back(x < 0 ? -77 : sizeof(T) == 1 ? (x - i) & 255 : x - i);
      }
    tr::Out o;
    o.str("alg", "for_each").num("n", n).num("S", V::size()).num("U", U > 1 ? U : 1)
     .num("sz", sizeof(T)).num("ma", mem_align<V>()).num("off", offset_of(first, std::max(mem_align<V>(), 1l)))
     .str("pol", pol_name(P)).num("wb", F == ref && !Const).raw("calls", Log::json()).raw("delta", tr::rle(delta))
     .num("oob", arena.changed(canary, first, last)).num("fault", fault).num("ret", 0);
    o.emit(std::string(LABEL) + " S=" + std::to_string(S) + " U=" + std::to_string(U) + " "
             + pol_name(P) + " place=" + std::to_string(pl) + " kind=" + std::to_string(kind)
             + " form=" + std::to_string(F));
  }

template <int S, int U, Pol P, Form F = ref, bool Const = false, bool Flip = false>
  void
  sweep()
  {
    using V = vir::simdize<T, S>;
    const long W = V::size();
    const long UU = U > 1 ? U : 1;
    const long A = std::max(1l, mem_align<V>() / long(sizeof(T)));
    const bool th = tr::thorough();
    std::vector<long> ns;
    const long full = W * UU * (UU > 1 ? 2 : 3) + W + 2;
    for (long n = 0; n <= std::min(full, th ? 700l : 150l); ++n)
      ns.push_back(n);
    for (long k : {UU + 1, 2 * UU, 3 * UU + 1})
      for (long d : {-1l, 0l, 1l, W / 2})
        ns.push_back(k * W + d);
    tr::Rng rng(tr::seed() * 131 + W * 7 + U);
    for (int i = 0; i < (th ? 60 : 8); ++i)
      ns.push_back(rng.below(6 * W * UU + 40));
    // around the auto_prologue size threshold (bytes)
    if (P == autop && sizeof(T) > 1)
      for (long b : {3968l, 3996l, 4000l, 4004l, 4032l, 4100l})
        ns.push_back(b / long(sizeof(T)) + 1);
    int kind = 0;
    for (long n : ns)
      {
        if (n < 0 || (P == match && n % W))
          continue;
        run<S, U, P, F, Const, Flip>(n, 0, kind++ % 4);
        run<S, U, P, F, Const, Flip>(n, 1, kind++ % 4);
        if ((P == aligned || P == autop) && A > 1)
          for (long o = 0; o < A; ++o)
            if (th || A <= 8 || n < 70 || (o + n) % 5 == 0)
              run<S, U, P, F, Const, Flip>(n, 2 + o, kind++ % 4);
        if (P == none || P == match)
          run<S, U, P, F, Const, Flip>(n, 3, kind++ % 4);
      }
  }

int main()
{
  tr::install();
#if SET == 0 // default width
  sweep<0, 0, none>(); sweep<0, 0, aligned>(); sweep<0, 0, autop>(); sweep<0, 0, match>();
  sweep<0, 2, none>(); sweep<0, 3, aligned>(); sweep<0, 4, autop>(); sweep<0, 2, match>();
  sweep<0, 0, none, val>(); sweep<0, 2, aligned, val>(); sweep<0, 0, autop, cref>();
  sweep<0, 0, none, ref, true>(); sweep<0, 5, none, cref>();
#elif SET == 1 // small explicit widths
  sweep<1, 0, none>(); sweep<1, 3, aligned>(); sweep<2, 0, aligned>(); sweep<2, 2, none, val>();
  sweep<3, 0, none>(); sweep<3, 2, aligned>(); sweep<4, 0, autop, ref, false, true>(); sweep<4, 8, none>();
  sweep<5, 0, none>(); sweep<5, 3, match>(); sweep<7, 0, autop>(); sweep<8, 2, aligned>();
#elif SET == 2 // larger widths
  sweep<12, 0, none>(); sweep<16, 0, none>(); sweep<16, 2, aligned, ref, false, true>(); sweep<31, 0, none>();
  sweep<32, 0, none>(); sweep<32, 2, autop>(); sweep<32, 0, aligned>();
#elif SET == 3 // very large widths (fallback)
  sweep<64, 0, none>(); sweep<63, 0, none>(); sweep<100, 0, none>(); sweep<65, 0, aligned>(); sweep<64, 2, none>();
  sweep<33, 0, none, val>();
#elif SET == 6 // widths that are no multiple of the alignment
  sweep<6, 0, aligned>(); sweep<10, 2, aligned>(); sweep<12, 0, aligned, val>(); sweep<20, 0, aligned>(); sweep<20, 2, autop>();
  sweep<24, 0, aligned>(); sweep<28, 3, aligned>(); sweep<28, 0, autop>(); sweep<6, 3, autop>();
#elif SET == 4 // long unrolling
  sweep<1, 17, none>(); sweep<2, 9, aligned>(); sweep<4, 12, none, val>(); sweep<0, 11, autop>(); sweep<2, 33, none>();
#endif
  return 0;
}
