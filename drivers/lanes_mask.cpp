// C10: mask operators and reductions.  -DTYPE=<T> -DWS=<width set>
#include "lanes_common.h"
using T = TYPE;

template <typename T, typename A>
  struct Masks : Mach<T, A>
  {
    using M = Mach<T, A>;
    using M::k; using M::k2; using M::k3; using M::rng; using M::N; using typename M::V; using typename M::K;
    using M::M;

    template <typename F>
      void red(const char* f, F&& fun)
      {
        tr::Out o = this->open("mred");
        o.str("f", f);
        this->step(o, [&] { this->ret = "[" + std::to_string(static_cast<long>(fun())) + "]"; });
      }
    void reductions()
    {
      red("all_of", [&] { return all_of(k); });
      red("any_of", [&] { return any_of(k); });
      red("none_of", [&] { return none_of(k); });
      red("some_of", [&] { return some_of(k); });
      red("popcount", [&] { return popcount(k); });
      bool any = false;
      for (int i = 0; i < N; ++i)
        any = any || k[i];
      if (any)
        {
          red("find_first_set", [&] { return find_first_set(k); });
          red("find_last_set", [&] { return find_last_set(k); });
        }
    }
    template <typename F>
      void bin(const char* f, F&& fun)
      {
        tr::Out o = this->open("mbin");
        o.str("f", f);
        this->step(o, [&] { k3 = fun(k, k2); });
      }
    template <typename F>
      void casg(const char* f, F&& fun)
      {
        this->fill(k); this->fill(k2);
        this->set();
        tr::Out o = this->open("mcasg");
        o.str("f", f);
        this->step(o, [&] { K& r = fun(k, k2); this->ret = &r == &k ? "[1]" : "[0]"; });
      }
    void operators()
    {
      bin("&&", [](const K& x, const K& y) { return x && y; });
      bin("||", [](const K& x, const K& y) { return x || y; });
      bin("&", [](const K& x, const K& y) { return x & y; });
      bin("|", [](const K& x, const K& y) { return x | y; });
      bin("^", [](const K& x, const K& y) { return x ^ y; });
      bin("==", [](const K& x, const K& y) { return x == y; });
      bin("!=", [](const K& x, const K& y) { return x != y; });
      tr::Out o = this->open("mun");
      o.str("f", "!");
      this->step(o, [&] { k3 = !k; });
      tr::Out o2 = this->open("mun");
      o2.str("f", "copy");
      this->step(o2, [&] { K t(k); k3 = t; });
    }
    void round()
    {
      this->boot();
      // all masks for small widths, single/pair bits and random ones otherwise
      if constexpr (N <= 7)
        {
          for (int m = 0; m < (1 << N); ++m)
            {
              for (int i = 0; i < N; ++i)
                k[i] = (m >> i) & 1;
              this->fill(k2);
              this->set();
              reductions();
              operators();
            }
        }
      else
        {
          for (int p = -2; p < 2 * N + 12; ++p)
            {
              for (int i = 0; i < N; ++i)
                k[i] = p == -2 ? false : p == -1 ? true : p < N ? i == p : p < 2 * N ? i != p - N : bool(rng.below(2));
              this->fill(k2);
              this->set();
              reductions();
              if (p % 4 == 0 || p >= 2 * N)
                operators();
            }
        }
      for (int j = 0; j < 4; ++j)
        {
          casg("&", [](K& x, const K& y) -> K& { return x &= y; });
          casg("|", [](K& x, const K& y) -> K& { return x |= y; });
          casg("^", [](K& x, const K& y) -> K& { return x ^= y; });
        }
    }
  };

// the bool overloads
struct Bools : Mach<T, plain>
{
  using Mach<T, plain>::Mach;
  template <typename F>
    void red(const char* f, F&& fun)
    {
      tr::Out o = open("mred");
      o.str("f", f);
      step(o, [&] { ret = "[" + std::to_string(static_cast<long>(fun())) + "]"; });
    }
  void round()
  {
    boot();
    for (bool x : {false, true})
      {
        k = x;
        set();
        red("all_of", [&] { return stdx::all_of(k); });
        red("any_of", [&] { return stdx::any_of(k); });
        red("none_of", [&] { return stdx::none_of(k); });
        red("some_of", [&] { return stdx::some_of(k); });
        red("popcount", [&] { return stdx::popcount(k); });
        if (x)
          {
            red("find_first_set", [&] { return stdx::find_first_set(k); });
            red("find_last_set", [&] { return stdx::find_last_set(k); });
          }
      }
  }
};

int main()
{
  tr::install();
  static Bools bools(1);
  bools.round();
  for_widths<T>([]<typename U, typename A>() {
    static Masks<U, A> m(Mach<U, A>::N * 31 + sizeof(U) + 2);
    m.fill_all();
    for (int r = 0; r < (tr::thorough() ? 5 : 1); ++r)
      m.round();
  });
}
