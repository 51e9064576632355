// C09: where-expressions on simd, simd_mask and scalars.  -DTYPE=<T> -DWS=<width set>
#include "lanes_common.h"
using T = TYPE;

template <typename T, typename A>
  struct Where : Mach<T, A>
  {
    using M = Mach<T, A>;
    using M::a; using M::b; using M::c; using M::k; using M::k2; using M::k3; using M::rng; using M::N; using typename M::V; using typename M::K;
    using M::M;
    static constexpr bool is_plain = std::is_same_v<A, plain>;
    static constexpr int WN = N + 3;

    bool sel(int i) const { return lane(k, i); }
    auto wh(V& v) { if constexpr (is_plain) return 0; else return 0; }

    // selected lanes must be defined; unselected ones may hold anything (division by zero included)
    void fix(Fn f)
    {
      for (int i = 0; i < N; ++i)
        if (sel(i) && ((f == shl || f == shr) || !defined<T>(f, lane(a, i), lane(b, i))))
          put(b, i, safe<T>(f, rng));
      this->set();
    }

    template <typename Cop>
      void
      compound(Fn f, Cop cop)
      {
        auto A_ = [&](int i) -> T { return lane(a, i); };
        auto B_ = [&](int i) -> T { return lane(b, i); };
        {
          this->fill(a); this->fill(b); this->fill(k);
          if ((f == dvd || f == rem) && std::is_integral_v<T>)
            for (int i = 0; i < N; ++i)
              if (!sel(i) && rng.below(2))
                put(b, i, T(0));
          fix(f);
          tr::Out o = this->open("wcasg");
          o.str("f", fn_name[f]).str("rhs", "b");
          this->ref(o, f, A_, B_);
          this->step(o, [&] { cop(k, a, b); });
        }
        { // scalar right-hand side
          this->fill(a); this->fill(k);
          T s = f == shl || f == shr ? safe<T>(f, rng) : edge<T>(rng);
          bool ok = true;
          for (int i = 0; i < N; ++i)
            ok = ok && (!sel(i) || defined<T>(f, lane(a, i), s));
          if (!ok)
            s = safe<T>(f, rng);
          for (int i = 0; i < N; ++i)
            if (sel(i) && !defined<T>(f, lane(a, i), s))
              put(a, i, T(0));
          this->set();
          tr::Out o = this->open("wcasg");
          o.str("f", fn_name[f]).str("rhs", "s").raw("s", tr::limbs(s));
          this->ref(o, f, A_, [&](int) -> T { return s; });
          this->step(o, [&] { cop(k, a, s); });
        }
        { // aliased
          this->fill(k);
          for (int i = 0; i < N; ++i)
            if (sel(i) && !defined<T>(f, lane(a, i), lane(a, i)))
              put(a, i, f == shl || f == shr ? safe<T>(f, rng) : T(1 + rng.below(7)));
          this->set();
          tr::Out o = this->open("wcasg");
          o.str("f", fn_name[f]).str("rhs", "a");
          this->ref(o, f, A_, A_);
          this->step(o, [&] { cop(k, a, a); });
        }
      }

    template <typename F>
      void
      unary(const char* f, int delta, F&& fun)
      {
        this->fill(a); this->fill(k);
        if constexpr (std::is_integral_v<T> && std::is_signed_v<T> && sizeof(T) >= sizeof(int))
          for (int i = 0; i < N; ++i)
            {
              T x = lane(a, i);
              if (sel(i) && (x == std::numeric_limits<T>::min() || x == std::numeric_limits<T>::max()))
                put(a, i, T(5));
            }
        this->set();
        tr::Out o = this->open("wun");
        o.str("f", f);
        if (delta && std::is_floating_point_v<T>)
          o.raw("ref", M::table([&](int i) { return sbin<T>(add, lane(a, i), T(delta)); }));
        this->step(o, fun);
      }

    // U window; with tail > 0 the last tail lanes are unselected and lie beyond the accessible memory
    template <typename U>
      void
      memory(int mode, int placing)
      {
        int tail = 0;
        this->fill(k);
        int wn = WN, off = placing == 0 ? 3 : placing == 1 ? 0 : 1;
        if (placing == 3)
          {
            tail = 1 + int(rng.below(N));
            for (int i = N - tail; i < N; ++i)
              put(k, i, false);
            off = 3 + tail;
          }
        U* p = window<U>(placing == 3 ? 0 : placing, wn);
        for (int i = 0; i < wn; ++i)
          new (p + i) U(mode == 2 ? edge<U>(rng) : conv_value<U, T>(rng));
        this->mem = p;
        this->mem_image = window_image<U, WN>;
        this->mty = ty_json<U>();
        for (int i = 0; i < N; ++i)
          put(a, i, mode == 2 ? conv_value<T, U>(rng) : edge<T>(rng));
        this->set_mem();
        tr::Out o = this->open(mode == 2 ? "wstore" : "wload");
        o.str("f", mode == 1 ? "const" : "").num("o", off);
        if constexpr (not std::same_as<U, T> && (std::is_floating_point_v<U> || std::is_floating_point_v<T>))
          {
            std::string r = "[";
            for (int i = 0; i < N; ++i)
              {
                if (mode == 2)
                  {
                    volatile T x = lane(a, i);
                    r += (i ? "," : "") + (sel(i) ? tr::limbs<U>(static_cast<U>(x)) : "[0]");
                  }
                else
                  {
                    std::string s = "[0]";
                    if (sel(i))
                      {
                        volatile U x = p[off + i];
                        s = tr::limbs<T>(static_cast<T>(x));
                      }
                    r += (i ? "," : "") + s;
                  }
              }
            o.raw("ref", r + "]");
          }
        U* q = p + off;
        using stdx::where;
        this->fault = tr::guarded([&] {
          if (mode == 0)
            where(k, a).copy_from(static_cast<const U*>(q), stdx::element_aligned);
          else if (mode == 1)
            {
              const V& ca = a;
              c = where(k, ca).copy_from(static_cast<const U*>(q), stdx::element_aligned);
            }
          else
            where(k, static_cast<const V&>(a)).copy_to(q, stdx::element_aligned);
        });
        this->oob = arena.changed(canary, p, p + wn);
        this->done(o);
        this->mem_image = nullptr;
      }

    template <typename U>
      void
      mem_all()
      {
        for (int m = 0; m < 3; ++m)
          for (int pl = 0; pl < 4; ++pl)
            memory<U>(m, pl);
        this->set();
      }

    void
    round()
    {
      using stdx::where;
      this->mem_image = nullptr;
      this->fill_all();
      this->boot();
      for (int j = 0; j < 3; ++j)
        {
          this->fill(a); this->fill(b); this->fill(k);
          this->set();
          tr::Out o = this->open("wasg");
          o.str("rhs", "b");
          this->step(o, [&] { where(k, a) = b; });
          this->fill(k);
          this->set();
          T s = edge<T>(rng);
          tr::Out o2 = this->open("wasg");
          o2.str("rhs", "s").raw("s", tr::limbs(s));
          this->step(o2, [&] { where(k, a) = s; });
        }
      compound(add, [](const auto& m, auto& x, const auto& y) { where(m, x) += y; });
      compound(sub, [](const auto& m, auto& x, const auto& y) { where(m, x) -= y; });
      compound(mul, [](const auto& m, auto& x, const auto& y) { where(m, x) *= y; });
      compound(dvd, [](const auto& m, auto& x, const auto& y) { where(m, x) /= y; });
      if constexpr (std::is_integral_v<T>)
        {
          compound(rem, [](const auto& m, auto& x, const auto& y) { where(m, x) %= y; });
          compound(band, [](const auto& m, auto& x, const auto& y) { where(m, x) &= y; });
          compound(bor, [](const auto& m, auto& x, const auto& y) { where(m, x) |= y; });
          compound(bxor, [](const auto& m, auto& x, const auto& y) { where(m, x) ^= y; });
          compound(shl, [](const auto& m, auto& x, const auto& y) { where(m, x) <<= y; });
          compound(shr, [](const auto& m, auto& x, const auto& y) { where(m, x) >>= y; });
        }
      unary("++x", 1, [&] { ++where(k, a); });
      unary("x++", 1, [&] { where(k, a)++; });
      unary("--x", -1, [&] { --where(k, a); });
      unary("x--", -1, [&] { where(k, a)--; });
      unary("neg", 0, [&] { c = -where(k, a); });
      unary("neg", 0, [&] { const V& ca = a; c = -where(k, ca); });
      mem_all<T>();
      if constexpr (not std::is_same_v<T, float>)
        mem_all<float>();
      if constexpr (not std::is_same_v<T, short>)
        mem_all<short>();
      mem_all<unsigned long>();
      if constexpr (not is_plain)
        {
          auto m = [&](const char* f, auto&& fun, int n = -1) {
            this->fill(k); this->fill(k2); this->fill(k3);
            this->set();
            tr::Out o = this->open("wmask");
            o.str("f", f);
            if (n >= 0)
              o.num("n", n);
            this->step(o, fun);
          };
          for (int j = 0; j < 3; ++j)
            {
              m("=", [&] { where(k, k2) = k3; });
              m("s", [&] { where(k, k2) = true; }, 1);
              m("s", [&] { where(k, k2) = false; }, 0);
              m("&", [&] { where(k, k2) &= k3; });
              m("|", [&] { where(k, k2) |= k3; });
              m("^", [&] { where(k, k2) ^= k3; });
            }
          for (int pl = 0; pl < 4; ++pl)
            for (int st = 0; st < 2; ++st)
              {
                int tail = 0, off = pl == 0 ? 3 : pl == 1 ? 0 : 1;
                this->fill(k); this->fill(k2);
                if (pl == 3)
                  {
                    tail = 1 + int(rng.below(N));
                    for (int i = N - tail; i < N; ++i)
                      put(k, i, false);
                    off = 3 + tail;
                  }
                bool* p = window<bool>(pl == 3 ? 0 : pl, WN);
                for (int i = 0; i < WN; ++i)
                  p[i] = rng.below(2);
                this->bmem = p;
                this->bcount = WN;
                this->set();
                tr::Out o = this->open(st ? "wmstore" : "wmload");
                o.num("o", off);
                this->fault = tr::guarded([&] {
                  if (st)
                    where(k, k2).copy_to(p + off, stdx::element_aligned);
                  else
                    where(k, k2).copy_from(p + off, stdx::element_aligned);
                });
                this->oob = arena.changed(canary, p, p + WN);
                this->done(o);
                this->bcount = 0;
                this->set();
              }
        }
    }
  };

int main()
{
  tr::install();
  auto go = []<typename U, typename A>() {
    static Where<U, A> m(Mach<U, A>::N * 31 + sizeof(U) + 3);
    const int rounds = (tr::thorough() ? 12 : 2) * (m.N < 6 ? 3 : m.N < 12 ? 2 : 1);
    for (int r = 0; r < rounds; ++r)
      m.round();
  };
#if WS == 0
  go.operator()<T, plain>();
#endif
  for_widths<T>(go);
}
