// The register machine of spec/Lanes.tla on real simd objects (C07..C11): records histories.
#pragma once
#include <array>
#include <vir/simd.h>
#include <cmath>
#include <limits>
#include "trace.h"

namespace stdx = vir::stdx;
using stdx::simd_abi::scalar;
template <int N> using fixed = stdx::simd_abi::fixed_size<N>;

template <typename T>
  constexpr int tbits = std::is_same_v<T, long double> ? 80 : int(sizeof(T) * 8);
template <typename T>
  std::string ty_json()
  {
    return std::string("{\"k\":\"") + (std::is_floating_point_v<T> ? "f" : std::is_signed_v<T> ? "i" : "u")
             + "\",\"bits\":" + std::to_string(tbits<T>) + "}";
  }

// ---- values --------------------------------------------------------------------------------------
template <typename T>
  T
  edge(tr::Rng& r)
  {
    using L = std::numeric_limits<T>;
    if constexpr (std::is_floating_point_v<T>)
      switch (r.below(20))
      {
        case 0: return 0;
        case 1: return -T(0);
        case 2: return 1;
        case 3: return -1;
        case 4: return T(0.5);
        case 5: return T(1.5);
        case 6: return L::max();
        case 7: return L::lowest();
        case 8: return L::min();
        case 9: return -L::denorm_min();
        case 10: return L::infinity();
        case 11: return -L::infinity();
        case 12: return L::quiet_NaN();
        case 13: return L::epsilon();
        case 14: return T(1) / T(3);
        case 15: return T(long(r.below(2000)) - 1000);
        default: return std::ldexp(T(long(r.next() >> 12) - (1l << 51)), int(r.below(80)) - 80);
      }
    else
      switch (r.below(16))
      {
        case 0: return 0;
        case 1: return 1;
        case 2: return T(-1);
        case 3: return 2;
        case 4: return 3;
        case 5: return L::max();
        case 6: return L::min();
        case 7: return T(L::max() - 1);
        case 8: return T(L::min() + 1);
        case 9: return T(0x5555555555555555ull);
        case 10: return T(0xaaaaaaaaaaaaaaaaull);
        case 11: return T(long(r.below(200)) - 100);
        case 12: return T(long(r.below(70000)) - 35000);
        default: return T(r.next());
      }
  }

// small values: sums and products over all lanes stay in range / exact
template <typename T>
  T
  small(tr::Rng& r, long lim)
  {
    if constexpr (std::is_unsigned_v<T>)
      return T(r.below(lim + 1));
    else
      return T(long(r.below(2 * lim + 1)) - lim);
  }

enum Fn { add, sub, mul, dvd, rem, band, bor, bxor, shl, shr };
inline const char* fn_name[] = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"};

// does the scalar expression x f y have a defined result?
template <typename T>
  bool
  defined(Fn f, T x, T y)
  {
    if constexpr (std::is_floating_point_v<T>)
      return true;
    else
      {
        using P = decltype(x + y);
        [[maybe_unused]] P r;
        constexpr int pb = sizeof(P) * 8;
        switch (f)
        {
          case add: return std::is_unsigned_v<P> || !__builtin_add_overflow(P(x), P(y), &r);
          case sub: return std::is_unsigned_v<P> || !__builtin_sub_overflow(P(x), P(y), &r);
          case mul: return std::is_unsigned_v<P> || !__builtin_mul_overflow(P(x), P(y), &r);
          case dvd:
          case rem: return y != 0 && !(std::is_signed_v<P> && P(x) == std::numeric_limits<P>::min() && P(y) == P(-1));
          case shl:
          case shr: return y >= 0 && (unsigned long long)(y) < (unsigned long long)(pb);
          default: return true;
        }
      }
  }
template <typename T>
  T safe(Fn f, tr::Rng& r)
  {
    if (f == shl || f == shr)
      return T(r.below(sizeof(decltype(T() + T())) * 8));
    return f == mul || f == dvd || f == rem ? T(1) : T(0);
  }

// the scalar operator on run-time values
template <typename T>
  [[gnu::noinline, gnu::noipa]] T
  sbin(Fn f, T x, T y)
  {
    switch (f)
    {
      case add: return x + y;
      case sub: return x - y;
      case mul: return x * y;
      case dvd: return x / y;
      default: return x;
    }
  }

inline long group_counter = 0;
inline bool in_group = false;

struct plain; // "ABI" of the machine on plain scalars: V = T, K = bool

template <typename T, typename A>
  struct types
  {
    using V = stdx::simd<T, A>;
    using K = stdx::simd_mask<T, A>;
    static constexpr int N = V::size();
  };
template <typename T>
  struct types<T, plain>
  {
    using V = T;
    using K = bool;
    static constexpr int N = 1;
  };
template <typename V>
  auto lane(const V& v, int i)
  {
    if constexpr (std::is_arithmetic_v<V>)
      return v;
    else
      return v[i];
  }
template <typename V, typename X>
  void put(V& v, int i, X x)
  {
    if constexpr (std::is_arithmetic_v<V>)
      v = x;
    else
      v[i] = x;
  }

template <typename T, typename A>
  struct Mach
  {
    using V = typename types<T, A>::V;
    using K = typename types<T, A>::K;
    static constexpr int N = types<T, A>::N;
    static constexpr bool is_int = std::is_integral_v<T>;
    V a{}, b{}, c{};
    K k{}, k2{}, k3{};
    std::string img[8]; // a b c k k2 k3 mem bmem
    static constexpr const char* names[8] = {"a", "b", "c", "k", "k2", "k3", "mem", "bmem"};
    std::string (*mem_image)(const void*) = nullptr;
    const void* mem = nullptr;
    std::string mty = "{\"k\":\"u\",\"bits\":8}";
    const bool* bmem = nullptr;
    int bcount = 0;
    std::string ret, label;
    tr::Rng rng;
    int fault = 0;

    explicit Mach(std::uint64_t s)
    : label(std::string(LABEL) + " N=" + std::to_string(N) + (std::is_same_v<A, scalar> ? "s" : std::is_same_v<A, plain> ? "p" : "")), rng(tr::seed() * 7919 + s)
    {}

    static std::string vec(const V& v)
    {
      std::string r = "[";
      for (int i = 0; i < N; ++i)
        r += (i ? "," : "") + tr::limbs<T>(lane(v, i));
      return r + "]";
    }
    static std::string msk(const K& v)
    {
      std::string r = "[";
      for (int i = 0; i < N; ++i)
        r += (i ? "," : "") + std::to_string(int(lane(v, i)));
      return r + "]";
    }
    std::string image(int i) const
    {
      switch (i)
      {
        case 0: return vec(a);
        case 1: return vec(b);
        case 2: return vec(c);
        case 3: return msk(k);
        case 4: return msk(k2);
        case 5: return msk(k3);
        case 6: return mem_image ? mem_image(mem) : "[]";
        default:
          {
            std::string r = "[";
            for (int j = 0; j < bcount; ++j)
              r += (j ? "," : "") + std::to_string(int(reinterpret_cast<const unsigned char*>(bmem)[j]));
            return r + "]";
          }
      }
    }
    tr::Out open(const char* op)
    {
      tr::Out o;
      o.num("g", group_counter).str("op", op);
      return o;
    }
    void env_fields(tr::Out& o, bool all)
    {
      for (int i = 0; i < 8; ++i)
        {
          std::string s = image(i);
          if (all || s != img[i])
            o.raw(names[i], s);
          img[i] = s;
        }
      o.num("fault", 0);
      o.emit(label);
    }
    void boot()
    {
      ++group_counter;
      tr::Out o = open("boot");
      o.raw("ty", ty_json<T>()).num("N", N).raw("mty", mty);
      env_fields(o, true);
    }
    void set()
    {
      tr::Out o = open("set");
      env_fields(o, false);
    }
    void set_mem()
    {
      tr::Out o = open("set");
      o.raw("mty", mty);
      env_fields(o, false);
    }
    long oob = 0;
    void done(tr::Out& o)
    {
      std::string post = "{";
      bool f = true;
      for (int i = 0; i < 8; ++i)
        {
          std::string s = image(i);
          if (s != img[i])
            {
              post += std::string(f ? "" : ",") + "\"" + names[i] + "\":" + s;
              f = false;
              img[i] = s;
            }
        }
      if (!ret.empty())
        post += std::string(f ? "" : ",") + "\"ret\":" + ret;
      ret.clear();
      o.raw("post", post + "}").num("oob", oob).num("fault", fault);
      oob = 0;
      o.emit(label);
      if (fault)
        boot();
      fault = 0;
    }
    template <typename F>
      void
      step(tr::Out& o, F&& f)
      {
        fault = tr::guarded(f);
        done(o);
      }

    // ---- environment helpers
    template <typename VV>
      requires std::same_as<VV, V>
    void fill(VV& v)
    {
      for (int i = 0; i < N; ++i)
        put(v, i, edge<T>(rng));
    }
    template <typename KK>
      requires std::same_as<KK, K>
    void fill(KK& v)
    {
      const auto mode = rng.below(6);
      for (int i = 0; i < N; ++i)
        put(v, i, mode == 0 ? false : mode == 1 ? true : bool(rng.below(2)));
    }
    void fill_all()
    {
      fill(a); fill(b); fill(c);
      fill(k); fill(k2); fill(k3);
    }

    // reference tables
    template <typename F>
      static std::string table(F&& f)
      {
        std::string r = "[";
        for (int i = 0; i < N; ++i)
          r += (i ? "," : "") + tr::limbs<T>(f(i));
        return r + "]";
      }
    // scalar results of x(i) f y(i) where the specification does not compute them itself
    template <typename X, typename Y>
      void
      ref(tr::Out& o, Fn f, X&& x, Y&& y, const bool* sel = nullptr)
      {
        if (std::is_floating_point_v<T>)
          o.raw("ref", table([&](int i) { return sbin<T>(f, x(i), y(i)); }));
        else if ((f == dvd || f == rem) && sizeof(T) > 2)
          o.raw("ref", table([&](int i) { return defined<T>(f, x(i), y(i)) ? sbin<T>(dvd, x(i), y(i)) : T(0); }));
      }
  };

// ---- memory windows ------------------------------------------------------------------------------
// value of type U whose conversion to T is defined
template <typename U, typename T>
  U
  conv_value(tr::Rng& r)
  {
    if constexpr (std::is_floating_point_v<U> && std::is_integral_v<T>)
      {
        const double lim = sizeof(T) >= 4 && r.below(3) == 0 ? 1e9 : std::is_signed_v<T> ? 120 : 250;
        double x = std::floor(double(r.below(1000001)) / 1000000. * lim * 4) / 4;
        if (std::is_signed_v<T> && r.below(2))
          x = -x;
        return U(x);
      }
    else if constexpr (std::is_floating_point_v<U> && std::is_floating_point_v<T> && sizeof(T) < sizeof(U))
      {
        U x = edge<U>(r);
        if (x == x && x - x == 0 && (std::fabs(x) > U(std::numeric_limits<T>::max())))
          x = U(long(r.below(100000)) - 50000) / 3;
        return x;
      }
    else
      return edge<U>(r);
  }

inline tr::Arena arena(3);
inline constexpr unsigned char canary = 0x5b;

template <typename U, int WN>
  std::string
  window_image(const void* p)
  {
    std::string r = "[";
    for (int i = 0; i < WN; ++i)
      {
        U x;
        std::memcpy(&x, static_cast<const U*>(p) + i, sizeof(U));
        r += (i ? "," : "") + tr::limbs<U>(x);
      }
    return r + "]";
  }

// where: 0 ends at the inaccessible page, 1 starts at it, 2 middle (64-byte aligned + 2 elements)
template <typename U>
  U*
  window(int where, int wn)
  {
    arena.fill(canary);
    if (where == 0)
      return reinterpret_cast<U*>(arena.end()) - wn;
    if (where == 1)
      return reinterpret_cast<U*>(arena.base);
    return reinterpret_cast<U*>(arena.base + 4096);
  }

// ---- widths: WS selects a subset
#ifndef WS
#define WS 0
#endif
template <typename T, typename F>
  void
  for_widths(F&& f)
  {
    auto w = [&]<int... Ns>(std::integer_sequence<int, Ns...>) { (f.template operator()<T, fixed<Ns>>(), ...); };
    if constexpr (WS == 0)
      {
        f.template operator()<T, scalar>();
        w(std::integer_sequence<int, 1, 2, 3, 4, 5, 7, 8, 16, 17, 33>());
      }
    else if constexpr (WS == 1)
      w(std::integer_sequence<int, 6, 9, 10, 11, 12, 13, 14, 15, 18, 19, 20>());
    else if constexpr (WS == 2)
      w(std::integer_sequence<int, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32>());
    else
      w(std::integer_sequence<int, 34, 40, 47, 48, 63, 64, 65, 100>());
  }
