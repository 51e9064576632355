// C11: reductions, hmin/hmax, min/max/minmax/clamp.  -DTYPE=<T> -DWS=<width set>
#include "lanes_common.h"
#include <functional>
using T = TYPE;

template <typename T, typename A>
  struct Red : Mach<T, A>
  {
    using M = Mach<T, A>;
    using M::a; using M::b; using M::c; using M::k; using M::rng; using M::N; using typename M::V; using typename M::K;
    using M::M;

    void small_fill(bool product)
    {
      constexpr bool wrap = std::is_unsigned_v<T> && sizeof(T) >= 4; // any value is fine
      int big = 0;
      for (int i = 0; i < N; ++i)
        if (product)
          {
            const int r = int(rng.below(8));
            T x = r == 0 && big < 6 ? T(2) : r == 1 && big < 5 ? T(3) : r == 2 && std::is_signed_v<T> ? T(-1) : T(1);
            big += x == T(2) || x == T(3);
            a[i] = wrap ? edge<T>(rng) : x;
          }
        else
          a[i] = wrap ? edge<T>(rng)
                   : small<T>(rng, std::is_floating_point_v<T> ? (tbits<T> == 80 ? 200 : 1000)
                                     : sizeof(T) == 1 ? 125 : sizeof(T) == 2 ? 30000 : 10000000);
    }
    void num_fill(V& v)
    {
      for (int i = 0; i < N; ++i)
        {
          T x = edge<T>(rng);
          if (x != x)
            x = T(3);
          v[i] = x;
        }
    }

    template <typename F>
      void
      run(const char* f, bool masked, T id, F&& fun)
      {
        tr::Out o = this->open("reduce");
        o.str("f", f).num("masked", masked).raw("id", tr::limbs(id));
        this->fault = tr::guarded([&] { T r = fun(); this->ret = tr::limbs<T>(r); });
        o.raw("r", this->ret.empty() ? "[]" : this->ret);
        this->done(o);
      }

    template <typename Op>
      void
      op(const char* f, Op bop, T id, int fillmode)
      {
        auto refill = [&] {
          if (fillmode == 2) this->fill(a);
          else small_fill(fillmode == 1);
        };
        refill();
        this->set();
        run(f, false, T(0), [&] { return reduce(a, bop); });
        for (int j = 0; j < 3; ++j)
          {
            refill();
            this->fill(k);
            if (j == 1)
              for (int i = 0; i < N; ++i) // few lanes
                k[i] = rng.below(N) == 0;
            this->set();
            run(f, true, id, [&] { return reduce(stdx::where(k, a), bop); });
            run(f, true, id, [&] { return reduce(stdx::where(k, static_cast<const V&>(a)), id, bop); });
          }
      }

    void
    round()
    {
      this->fill_all();
      this->boot();
      op("+", std::plus<>(), T(0), 0);
      small_fill(false); this->fill(k); this->set();
      run("+", false, T(0), [&] { return reduce(a); });
      run("+", true, T(0), [&] { return reduce(stdx::where(k, a)); });
      run("+", false, T(0), [&] { return reduce(a, [](const auto& x, const auto& y) { return x + y; }); });
      op("*", std::multiplies<>(), T(1), 1);
      if constexpr (std::is_integral_v<T>)
        {
          op("&", std::bit_and<>(), T(~T()), 2);
          op("|", std::bit_or<>(), T(0), 2);
          op("^", std::bit_xor<>(), T(0), 2);
        }
      auto mm = [&](const char* f, auto&& fun) {
        tr::Out o = this->open("mm");
        o.str("f", f);
        this->step(o, fun);
      };
      for (int j = 0; j < 3; ++j)
        {
          num_fill(a);
          if (j == 1) // ties and infinities only
            for (int i = 0; i < N; ++i)
              a[i] = std::is_floating_point_v<T> ? (rng.below(3) ? std::numeric_limits<T>::infinity() : T(7)) : std::numeric_limits<T>::max();
          this->fill(k);
          if (j == 2)
            {
              for (int i = 0; i < N; ++i)
                k[i] = false;
              k[rng.below(N)] = true;
            }
          this->set();
          run("min", false, T(0), [&] { return hmin(a); });
          run("max", false, T(0), [&] { return hmax(a); });
          run("min", true, std::numeric_limits<T>::max(), [&] { return hmin(stdx::where(k, a)); });
          run("max", true, std::numeric_limits<T>::lowest(), [&] { return hmax(stdx::where(k, a)); });
          for (int i = 0; i < N; ++i)
            a[i] = std::is_floating_point_v<T> ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::min();
          this->fill(k);
          this->set();
          run("min", true, std::numeric_limits<T>::max(), [&] { return hmin(stdx::where(k, static_cast<const V&>(a))); });
          run("max", true, std::numeric_limits<T>::lowest(), [&] { return hmax(stdx::where(k, static_cast<const V&>(a))); });
          num_fill(a); num_fill(b);
          for (int i = 0; i < N; ++i)
            if (rng.below(4) == 0)
              b[i] = T(a[i]);
          this->set();
          mm("min", [&] { c = min(a, b); });
          mm("max", [&] { c = max(a, b); });
          mm("minmax", [&] { auto [lo, hi] = minmax(a, b); b = lo; c = hi; });
          num_fill(a); num_fill(b); num_fill(c);
          for (int i = 0; i < N; ++i)
            if (c[i] < b[i])
              {
                T t = b[i];
                b[i] = T(c[i]);
                c[i] = t;
              }
          this->set();
          mm("clamp", [&] { c = clamp(a, b, c); });
        }
    }
  };

int main()
{
  tr::install();
  for_widths<T>([]<typename U, typename A>() {
    static Red<U, A> m(Mach<U, A>::N * 31 + sizeof(U) + 4);
    const int rounds = (tr::thorough() ? 20 : 4);
    for (int r = 0; r < rounds; ++r)
      m.round();
  });
}
