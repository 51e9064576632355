// C07: construction, loads, stores, subscripts of simd and simd_mask.  -DTYPE=<T> -DWS=<width set>
#include "lanes_common.h"
using T = TYPE;

template <typename T, typename A>
  struct Mem : Mach<T, A>
  {
    using M = Mach<T, A>;
    using M::a; using M::b; using M::c; using M::k; using M::k2; using M::k3; using M::rng; using M::N; using typename M::V; using typename M::K;
    using M::M;
    static constexpr int WN = N + 4;

    template <typename U>
      U*
      load_window(int where, bool for_store)
      {
        U* p = window<U>(where, WN);
        for (int i = 0; i < WN; ++i)
          new (p + i) U(for_store ? edge<U>(rng) : conv_value<U, T>(rng));
        this->mem = p;
        this->mem_image = window_image<U, WN>;
        this->mty = ty_json<U>();
        return p;
      }

    template <typename U>
      void
      conv_ref(tr::Out& o, const U* src)
      {
        if constexpr (not std::same_as<U, T> && (std::is_floating_point_v<U> || std::is_floating_point_v<T>))
          o.raw("ref", M::table([&](int i) { volatile U x = src[i]; return static_cast<T>(x); }));
      }

    template <typename U, typename Flag>
      void
      load(int where, int off, Flag flag)
      {
        U* p = load_window<U>(where, false);
        this->fill(a);
        this->set_mem();
        {
          tr::Out o = this->open("load");
          o.num("o", off);
          conv_ref(o, p + off);
          this->step(o, [&] { a.copy_from(static_cast<const U*>(p + off), flag); });
          this->oob += arena.changed(canary, p, p + WN);
        }
        if constexpr (std::is_constructible_v<V, const U*, Flag>)
          {
            this->fill(a);
            this->set();
            tr::Out o = this->open("load");
            o.num("o", off);
            conv_ref(o, p + off);
            this->step(o, [&] { a = V(static_cast<const U*>(p + off), flag); });
          }
        this->mem_image = nullptr; // the next record is a set
      }

    template <typename U, typename Flag>
      void
      store(int where, int off, Flag flag)
      {
        U* p = load_window<U>(where, true);
        for (int i = 0; i < N; ++i)
          a[i] = conv_value<T, U>(rng);
        this->set_mem();
        tr::Out o = this->open("store");
        o.num("o", off);
        if constexpr (not std::same_as<U, T> && (std::is_floating_point_v<U> || std::is_floating_point_v<T>))
          {
            std::string r = "[";
            for (int i = 0; i < N; ++i)
              {
                volatile T x = a[i];
                r += (i ? "," : "") + tr::limbs<U>(static_cast<U>(x));
              }
            o.raw("ref", r + "]");
          }
        this->fault = tr::guarded([&] { a.copy_to(p + off, flag); });
        this->oob = arena.changed(canary, p, p + WN);
        this->done(o);
        this->mem_image = nullptr;
      }

    template <typename U>
      void
      memory()
      {
        load<U>(0, 4, stdx::element_aligned);
        load<U>(1, 0, stdx::vector_aligned);
        load<U>(2, 2, stdx::element_aligned);
        load<U>(2, 0, stdx::overaligned<64>);
        store<U>(0, 4, stdx::element_aligned);
        store<U>(1, 0, stdx::vector_aligned);
        store<U>(2, 2, stdx::element_aligned);
        store<U>(2, 0, stdx::overaligned<64>);
      }

    template <typename U>
      void
      convert()
      {
        if constexpr (not std::same_as<U, T>)
          if constexpr (std::is_convertible_v<stdx::simd<U, A>, V>)
            {
              stdx::simd<U, A> src;
              U vals[N];
              for (int i = 0; i < N; ++i)
                src[i] = vals[i] = conv_value<U, T>(rng);
              this->fill(a);
              this->set();
              tr::Out o = this->open("conv");
              o.raw("sty", ty_json<U>());
              std::string g = "[";
              for (int i = 0; i < N; ++i)
                g += (i ? "," : "") + tr::limbs<U>(vals[i]);
              o.raw("gen", g + "]");
              conv_ref(o, vals);
              this->step(o, [&] { a = src; });
            }
        if constexpr (not std::same_as<U, T>)
          if constexpr (std::is_convertible_v<stdx::simd_mask<U, A>, K>)
            {
              stdx::simd_mask<U, A> src;
              std::string g = "[";
              for (int i = 0; i < N; ++i)
                {
                  src[i] = rng.below(2);
                  g += (i ? "," : "") + std::to_string(int(src[i]));
                }
              this->fill(k);
              this->set();
              tr::Out o = this->open("mconv");
              o.raw("gen", g + "]");
              this->step(o, [&] { k = src; });
            }
      }

    template <typename G>
      void
      generate()
      {
        if constexpr (std::same_as<G, T> || std::is_same_v<G, int>)
          {
            static G vals[N];
            static int count[N];
            for (int i = 0; i < N; ++i)
              {
                vals[i] = conv_value<G, T>(rng);
                count[i] = 0;
              }
            this->fill(a);
            this->set();
            tr::Out o = this->open("gen");
            o.raw("sty", ty_json<G>());
            std::string g = "[";
            for (int i = 0; i < N; ++i)
              g += (i ? "," : "") + tr::limbs<G>(vals[i]);
            o.raw("gen", g + "]");
            conv_ref(o, vals);
            this->fault = tr::guarded([&] {
              a = V([&](auto i) -> G {
                    constexpr std::size_t j = i; // the index is a constant
                    ++count[j];
                    return vals[i];
                  });
            });
            o.raw("order", tr::list(count));
            this->done(o);
          }
      }

    template <typename G>
      void
      broadcast()
      {
        if constexpr (std::is_convertible_v<G, V>)
          {
            G x = conv_value<G, T>(rng);
            this->fill(a);
            this->set();
            tr::Out o = this->open("bcast");
            o.raw("sty", ty_json<G>()).raw("s", tr::limbs(x));
            volatile G y = x;
            o.raw("ref", "[" + tr::limbs<T>(static_cast<T>(y)) + "]");
            this->step(o, [&] { a = x; });
          }
      }

    void
    subscripts()
    {
      this->fill(a);
      this->set();
      for (int i = 0; i < N; ++i)
        {
          {
            tr::Out o = this->open("rd");
            o.num("i", i);
            this->step(o, [&] { const V& ca = a; this->ret = tr::limbs<T>(ca[i]); });
          }
          {
            tr::Out o = this->open("wr");
            T x = edge<T>(rng);
            o.num("i", i).raw("s", tr::limbs(x));
            this->step(o, [&] { a[i] = x; });
          }
          {
            tr::Out o = this->open("bump");
            T x = T(1);
            if (!defined<T>(add, a[i], x))
              x = 0;
            o.num("i", i).str("f", "+").raw("s", tr::limbs(x));
            if (std::is_floating_point_v<T>)
              o.raw("ref", "[" + tr::limbs(sbin<T>(add, a[i], x)) + "]");
            this->step(o, [&] { a[i] += x; });
          }
          {
            tr::Out o = this->open("mrd");
            o.num("i", i);
            this->step(o, [&] { const K& ck = k; this->ret = "[" + std::to_string(int(ck[i])) + "]"; });
          }
          {
            tr::Out o = this->open("mwr");
            bool x = rng.below(2);
            o.num("i", i).num("n", x);
            this->step(o, [&] { k[i] = x; });
          }
        }
    }

    void
    masks()
    {
      for (int where = 0; where < 3; ++where)
        {
          const int off = where == 0 ? 4 : where == 1 ? 0 : 2;
          bool* p = window<bool>(where, WN);
          for (int i = 0; i < WN; ++i)
            p[i] = rng.below(2);
          this->bmem = p;
          this->bcount = WN;
          this->fill(k); this->fill(k2);
          this->set();
          auto run = [&](const char* op, auto&& f) {
            tr::Out o = this->open(op);
            o.num("o", off);
            this->fault = tr::guarded(f);
            this->oob = arena.changed(canary, p, p + WN);
            this->done(o);
          };
          run("mstore", [&] { k.copy_to(p + off, stdx::element_aligned); });
          this->fill(k);
          for (int i = 0; i < WN; ++i)
            p[i] = rng.below(2);
          this->set();
          run("mload", [&] { k.copy_from(p + off, stdx::element_aligned); });
          this->fill(k);
          this->set();
          run("mload", [&] { k = K(static_cast<const bool*>(p + off), stdx::vector_aligned); });
          this->fill(k);
          this->set();
          run("mloadm", [&] { k = K(static_cast<const bool*>(p + off), k2, stdx::element_aligned); });
          run("mstore", [&] { k.copy_to(p + off, stdx::vector_aligned); });
        }
      this->bcount = 0;
      for (bool x : {true, false, true})
        {
          this->fill(k);
          this->set();
          tr::Out o = this->open("mbcast");
          o.num("n", x);
          this->step(o, [&] { k = K(x); });
        }
      {
        static bool vals[N];
        static int count[N];
        for (int i = 0; i < N; ++i)
          {
            vals[i] = rng.below(2);
            count[i] = 0;
          }
        this->set();
        tr::Out o = this->open("mgen");
        o.raw("gen", tr::list(vals));
        this->fault = tr::guarded([&] {
          k = K([&](auto i) -> bool { constexpr std::size_t j = i; ++count[j]; return vals[i]; });
        });
        o.raw("order", tr::list(count));
        this->done(o);
      }
    }

    template <typename... Us>
      void
      all()
      {
        (memory<Us>(), ...);
        this->set();
        (convert<Us>(), ...);
        (broadcast<Us>(), ...);
      }

    void
    round()
    {
      this->mem_image = nullptr;
      this->fill_all();
      this->boot();
#if FULL
      all<signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long,
          float, double, long double, char, wchar_t, char16_t, char32_t>();
#else
      if constexpr (std::same_as<T, float>)
        all<float, signed char, double, unsigned short>();
      else
        all<T, float, unsigned char, long>();
#endif
      generate<T>();
      generate<int>();
      { // copies
        this->fill(a);
        this->set();
        tr::Out o = this->open("un");
        o.str("f", "copy");
        this->step(o, [&] { V t(a); c = t; });
        this->fill(a);
        this->set();
        tr::Out o2 = this->open("un");
        o2.str("f", "copy");
        this->step(o2, [&] { V t = std::move(a); V u; u = std::move(t); c = u; });
      }
      subscripts();
      masks();
    }
  };

int main()
{
  tr::install();
  auto go = []<typename U, typename A>() {
    static Mem<U, A> m(Mach<U, A>::N * 31 + sizeof(U) + 1);
    const int rounds = (tr::thorough() ? 10 : 2);
    for (int r = 0; r < rounds; ++r)
      m.round();
  };
#if FULL
  go.operator()<T, scalar>();
  go.operator()<T, fixed<5>>();
  go.operator()<T, fixed<8>>();
#else
  for_widths<T>(go);
#endif
}
