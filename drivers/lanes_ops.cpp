// C08: operators on simd.   -DTYPE=<T> -DWS=<width set>
#include "lanes_common.h"
using T = TYPE;

template <typename T, typename A>
  struct Ops : Mach<T, A>
  {
    using M = Mach<T, A>;
    using M::a; using M::b; using M::c; using M::k; using M::rng; using M::N; using typename M::V; using typename M::K;
    using M::M;

    // make the operands of x f y defined in every lane by changing y
    void fix(Fn f, V& x, V& y)
    {
      bool ch = false;
      for (int i = 0; i < N; ++i)
        if ((f == shl || f == shr) ? true : !defined<T>(f, x[i], y[i]))
          {
            y[i] = safe<T>(f, rng);
            ch = true;
          }
      (void) ch;
      this->set();
    }

    template <typename Op, typename Cop>
      void
      binary(Fn f, Op op, Cop cop)
      {
        auto A_ = [&](int i) -> T { return a[i]; };
        auto B_ = [&](int i) -> T { return b[i]; };
        { // c = a f b
          this->fill(a); this->fill(b);
          fix(f, a, b);
          tr::Out o = this->open("bin");
          o.str("f", fn_name[f]).str("lhs", "a").str("rhs", "b");
          this->ref(o, f, A_, B_);
          this->step(o, [&] { c = op(a, b); });
        }
        { // a f= b
          fix(f, a, b);
          tr::Out o = this->open("casg");
          o.str("f", fn_name[f]).str("rhs", "b");
          this->ref(o, f, A_, B_);
          this->step(o, [&] { auto& r = cop(a, b); this->ret = &r == &a ? "[1]" : "[0]"; });
        }
        { // a f= a
          bool ok = true;
          for (int i = 0; i < N; ++i)
            ok = ok && defined<T>(f, a[i], a[i]);
          if (!ok)
            {
              for (int i = 0; i < N; ++i)
                if (!defined<T>(f, a[i], a[i]))
                  a[i] = f == shl || f == shr ? safe<T>(f, rng) : T(1 + rng.below(7));
              this->set();
            }
          tr::Out o = this->open("casg");
          o.str("f", fn_name[f]).str("rhs", "a");
          this->ref(o, f, A_, A_);
          this->step(o, [&] { auto& r = cop(a, a); this->ret = &r == &a ? "[1]" : "[0]"; });
        }
        { // c = a f s, c = s f a, a f= s
          this->fill(a);
          T s = f == shl || f == shr ? safe<T>(f, rng) : edge<T>(rng);
          bool ok = true;
          for (int i = 0; i < N; ++i)
            ok = ok && defined<T>(f, a[i], s);
          if (!ok)
            s = safe<T>(f, rng);
          for (int i = 0; i < N; ++i)
            if (!defined<T>(f, a[i], s))
              a[i] = 0;
          this->set();
          auto S_ = [&](int) -> T { return s; };
          tr::Out o = this->open("bin");
          o.str("f", fn_name[f]).str("lhs", "a").str("rhs", "s").raw("s", tr::limbs(s));
          this->ref(o, f, A_, S_);
          if constexpr (requires { { op(a, s) } -> std::same_as<V>; })
            this->step(o, [&] { c = op(a, s); });
          tr::Out o2 = this->open("casg");
          o2.str("f", fn_name[f]).str("rhs", "s").raw("s", tr::limbs(s));
          this->ref(o2, f, A_, S_);
          this->step(o2, [&] { auto& r = cop(a, s); this->ret = &r == &a ? "[1]" : "[0]"; });
          this->fill(a);
          fixlhs(f, s, a);
          tr::Out o3 = this->open("bin");
          o3.str("f", fn_name[f]).str("lhs", "s").str("rhs", "a").raw("s", tr::limbs(s));
          this->ref(o3, f, S_, A_);
          if constexpr (requires { { op(s, a) } -> std::same_as<V>; })
            this->step(o3, [&] { c = op(s, a); });
        }
      }
    void fixlhs(Fn f, T s, V& y)
    {
      for (int i = 0; i < N; ++i)
        if (!defined<T>(f, s, y[i]) || f == shl || f == shr)
          y[i] = safe<T>(f, rng);
      this->set();
    }

    template <typename Op>
      void
      compare(const char* f, Op op)
      {
        this->fill(a);
        this->fill(b);
        for (int i = 0; i < N; ++i)
          if (rng.below(4) == 0)
            b[i] = T(a[i]);
        this->set();
        {
          tr::Out o = this->open("cmp");
          o.str("f", f).str("lhs", "a").str("rhs", "b");
          this->step(o, [&] { k = op(a, b); });
        }
        {
          tr::Out o = this->open("cmp");
          o.str("f", f).str("lhs", "a").str("rhs", "a");
          this->step(o, [&] { k = op(a, a); });
        }
        T s = rng.below(2) ? T(a[rng.below(N)]) : edge<T>(rng);
        {
          tr::Out o = this->open("cmp");
          o.str("f", f).str("lhs", "a").str("rhs", "s").raw("s", tr::limbs(s));
          this->step(o, [&] { k = op(a, s); });
        }
        {
          tr::Out o = this->open("cmp");
          o.str("f", f).str("lhs", "s").str("rhs", "a").raw("s", tr::limbs(s));
          this->step(o, [&] { k = op(s, a); });
        }
      }

    template <typename F>
      void
      unary(const char* f, int delta, F&& fun, bool neg = false)
      {
        this->fill(a);
        using P = decltype(T() + T());
        if constexpr (std::is_integral_v<T> && std::is_signed_v<T> && sizeof(T) >= sizeof(int))
          for (int i = 0; i < N; ++i)
            {
              T x = a[i];
              if ((neg && x == std::numeric_limits<T>::min()) || (delta == 1 && x == std::numeric_limits<T>::max())
                    || (delta == -1 && x == std::numeric_limits<T>::min()))
                a[i] = 5;
            }
        this->set();
        tr::Out o = this->open("un");
        o.str("f", f);
        if (delta && std::is_floating_point_v<T>)
          o.raw("ref", M::table([&](int i) { return sbin<T>(add, a[i], T(delta)); }));
        this->step(o, fun);
      }

    void
    round()
    {
      this->fill_all();
      this->boot();
      binary(add, [](const auto& x, const auto& y) { return x + y; }, [](auto& x, const auto& y) -> auto& { return x += y; });
      binary(sub, [](const auto& x, const auto& y) { return x - y; }, [](auto& x, const auto& y) -> auto& { return x -= y; });
      binary(mul, [](const auto& x, const auto& y) { return x * y; }, [](auto& x, const auto& y) -> auto& { return x *= y; });
      binary(dvd, [](const auto& x, const auto& y) { return x / y; }, [](auto& x, const auto& y) -> auto& { return x /= y; });
      if constexpr (std::is_integral_v<T>)
        {
          binary(rem, [](const auto& x, const auto& y) { return x % y; }, [](auto& x, const auto& y) -> auto& { return x %= y; });
          binary(band, [](const auto& x, const auto& y) { return x & y; }, [](auto& x, const auto& y) -> auto& { return x &= y; });
          binary(bor, [](const auto& x, const auto& y) { return x | y; }, [](auto& x, const auto& y) -> auto& { return x |= y; });
          binary(bxor, [](const auto& x, const auto& y) { return x ^ y; }, [](auto& x, const auto& y) -> auto& { return x ^= y; });
          binary(shl, [](const V& x, const V& y) { return x << y; }, [](V& x, const V& y) -> V& { return x <<= y; });
          binary(shr, [](const V& x, const V& y) { return x >> y; }, [](V& x, const V& y) -> V& { return x >>= y; });
          for (int s : {0, 1, int(rng.below(sizeof(decltype(T() + T())) * 8)), int(sizeof(decltype(T() + T())) * 8 - 1)})
            {
              this->fill(a);
              this->set();
              tr::Out o = this->open("shi");
              o.str("f", "<<").num("n", s);
              this->step(o, [&] { c = a << s; });
              tr::Out o2 = this->open("shi");
              o2.str("f", ">>").num("n", s);
              this->step(o2, [&] { c = a >> s; });
            }
          unary("bnot", 0, [&] { c = ~a; });
        }
      compare("==", [](const auto& x, const auto& y) { return x == y; });
      compare("!=", [](const auto& x, const auto& y) { return x != y; });
      compare("<", [](const auto& x, const auto& y) { return x < y; });
      compare("<=", [](const auto& x, const auto& y) { return x <= y; });
      compare(">", [](const auto& x, const auto& y) { return x > y; });
      compare(">=", [](const auto& x, const auto& y) { return x >= y; });
      unary("neg", 0, [&] { c = -a; }, true);
      unary("pos", 0, [&] { c = +a; });
      unary("lnot", 0, [&] { k = !a; });
      unary("++x", 1, [&] { V& r = ++a; c = r; if (&r != &a) c = V(0); });
      unary("x++", 1, [&] { c = a++; });
      unary("--x", -1, [&] { V& r = --a; c = r; });
      unary("x--", -1, [&] { c = a--; });
    }
  };

int main()
{
  tr::install();
  for_widths<T>([]<typename U, typename A>() {
    static Ops<U, A> m(Mach<U, A>::N * 31 + sizeof(U));
    const int rounds = (tr::thorough() ? 12 : 2) * (m.N < 6 ? 3 : m.N < 12 ? 2 : 1);
    for (int r = 0; r < rounds; ++r)
      m.round();
  });
}
