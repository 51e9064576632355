// Casts, split/concat, resize, bit casts, bitset conversions, cvt.
// -DTYPE=element type  -DSET=0 (casts) | 1 (split, concat, to_*) | 2 (resize, bit_cast, bitset, cvt)
#include "move_common.h"
#include <vir/simd_cast.h>
#include <vir/simd_resize.h>
#include <vir/simd_bit.h>
#include <vir/simd_bitset.h>
#include <vir/simd_cvt.h>
#include <limits>
#include <tuple>

using T = TYPE;
template <typename U, int N> using Fix = stdx::fixed_size_simd<U, N>;
template <typename U, int N> using FixM = stdx::fixed_size_simd_mask<U, N>;
template <typename U, int N> using Ded = stdx::simd<U, stdx::simd_abi::deduce_t<U, N>>;
template <typename U, int N> using DedM = stdx::simd_mask<U, stdx::simd_abi::deduce_t<U, N>>;
template <typename U> using Sca = stdx::simd<U, stdx::simd_abi::scalar>;
template <typename U> using ScaM = stdx::simd_mask<U, stdx::simd_abi::scalar>;

#if VIR_GLIBCXX_STDX_SIMD
#define STDLIB 1
#else
#define STDLIB 0
#endif
template <typename U, int N, typename = void> constexpr bool ok = false;
template <typename U, int N> constexpr bool ok<U, N, std::void_t<stdx::simd_abi::deduce_t<U, N>>>
  = !STDLIB or N <= stdx::simd_abi::max_fixed_size<U>;

template <typename> constexpr const char* nm = "?";
#define NAME(X) template <> constexpr const char* nm<X> = #X;
NAME(char) NAME(signed char) NAME(unsigned char) NAME(short) NAME(unsigned short) NAME(int) NAME(unsigned int) NAME(long)
NAME(unsigned long) NAME(long long) NAME(unsigned long long) NAME(wchar_t) NAME(char16_t) NAME(char32_t) NAME(float) NAME(double)
NAME(long double)

inline std::string label(const char* what, const char* abi, int n)
{ return std::string(what) + " " + nm<T> + " " + abi + std::to_string(n); }

// ------------------------------------------------------------------ casts
// a value of type T whose conversion to U is defined
template <typename U>
  T castable()
  {
    if constexpr (std::is_integral_v<T>)
      {
        switch (mv::rng.below(6))
          {
            case 0: return std::numeric_limits<T>::max();
            case 1: return std::numeric_limits<T>::min();
            case 2: return static_cast<T>(mv::rng.below(7) - 3);
            default: return mv::random<T>();
          }
      }
    else if constexpr (std::is_integral_v<U>)
      {
        // |x| < 2^digits(U), trunc in range
        const int d = std::numeric_limits<U>::digits;
        const std::uint64_t m = d >= 64 ? mv::rng.next() : mv::rng.next() % (std::uint64_t(1) << d);
        T x = static_cast<T>(m >> mv::rng.below(d)) ;
        if (x >= static_cast<T>(std::uint64_t(1) << (d - 1)) * 2)
          x = x / 4;
        if (std::is_signed_v<U> && mv::rng.below(2))
          x = -x;
        if (x < T(1 << 20) && x > T(-(1 << 20)))
          x += static_cast<T>(mv::rng.below(4)) / 4 * (x < 0 ? -1 : 1) * (x > -1 && x < 0 ? 0 : 1);
        if (std::is_unsigned_v<U> && x < 0)
          x = 0;
        const U hi = std::numeric_limits<U>::max();
        if (sizeof(U) < 4 && (x >= T(hi) + 1 || x <= T(std::numeric_limits<U>::min()) - 1))
          x = 1;
        return x;
      }
    else
      {
        static const T special[] = {T(0), -T(0), T(1), T(-1.5), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(),
                                    std::numeric_limits<T>::quiet_NaN(), T(std::numeric_limits<float>::denorm_min()),
                                    T(std::numeric_limits<float>::max()), T(16777217), T(1) / 3};
        if (mv::rng.below(2))
          return special[mv::rng.below(sizeof special / sizeof special[0])];
        return static_cast<T>(static_cast<std::int64_t>(mv::rng.next())) / static_cast<T>(1 + mv::rng.below(1 << 20));
      }
  }

template <typename V, typename U>
  V make_castable()
  {
    T mem[V::size()];
    for (auto& x : mem)
      x = castable<U>();
    return V(mem, stdx::element_aligned);
  }
template <typename V>
  std::string norm(const V& v)
  {
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i)
      {
        const typename V::value_type x = v[i];
        r += (i ? "," : "") + tr::limbs(x);
      }
    return r + "]";
  }
template <typename U, typename V, typename F>
  void cast_one(const char* what, const char* abi, F f)
  {
    for (int rep = 0; rep < (V::size() < 4 ? 3 : 1); ++rep)
      {
        const V v = make_castable<V, U>();
        mv::Rec r{"cast"};
        r.ty = mv::type<U>();
        r.sty = mv::type<T>();
        r.in = {norm(v)};
        r.ref = "[";
        for (std::size_t i = 0; i < V::size(); ++i)
          {
            volatile T x = v[i];
            r.ref += (i ? "," : "") + tr::limbs(static_cast<U>(x));
          }
        r.ref += "]";
        r.fault = tr::guarded([&] {
          const auto o = f(v);
          static_assert(std::is_same_v<typename decltype(o)::value_type, U>);
          r.out = {norm(o)};
        });
        r.emit(label(what, abi, V::size()) + " to " + nm<U>);
      }
  }
template <typename M, typename F>
  void mask_same(const char* what, const char* abi, F f)
  {
    for (int rep = 0; rep < (M::size() < 4 ? 4 : 2); ++rep)
      {
        const M k = mv::make<M>();
        mv::Rec r{"same"};
        r.ty = r.sty = mv::type<bool>();
        r.in = {mv::lanes(k)};
        r.fault = tr::guarded([&] { r.out = {mv::lanes(f(k))}; });
        r.emit(label(what, abi, M::size()));
      }
  }
template <typename A, typename B>
  inline constexpr bool preserving = [] {
    if constexpr (std::is_integral_v<A> && std::is_integral_v<B>)
      return std::numeric_limits<B>::digits >= std::numeric_limits<A>::digits && (std::is_signed_v<B> || std::is_unsigned_v<A>);
    else if constexpr (std::is_floating_point_v<A>)
      return std::is_floating_point_v<B> && sizeof(B) >= sizeof(A);
    else
      return std::numeric_limits<B>::digits >= std::numeric_limits<A>::digits;
  }();

template <typename U, int N>
  void cast_to()
  {
#if not STDLIB
    cast_one<U, Fix<T, N>>("static_simd_cast<U>", "fixed", [](const auto& v) { return stdx::static_simd_cast<U>(v); });
    cast_one<U, Fix<T, N>>("static_simd_cast<V>", "fixed", [](const auto& v) { return stdx::static_simd_cast<Fix<U, N>>(v); });
    cast_one<U, Fix<T, N>>("vir::static_simd_cast", "fixed", [](const auto& v) { return vir::static_simd_cast<Fix<U, N>>(v); });
    if constexpr (preserving<T, U>)
      {
        cast_one<U, Fix<T, N>>("simd_cast<U>", "fixed", [](const auto& v) { return stdx::simd_cast<U>(v); });
        cast_one<U, Fix<T, N>>("simd_cast<V>", "fixed", [](const auto& v) { return stdx::simd_cast<Fix<U, N>>(v); });
        // between integral types only to one of a greater conversion rank
        if constexpr (not (std::is_integral_v<T> and std::is_integral_v<U>) or sizeof(U) > sizeof(T) or std::is_same_v<T, U>)
          cast_one<U, Fix<T, N>>("converting constructor", "fixed", [](const auto& v) { return Fix<U, N>(v); });
      }
    mask_same<FixM<T, N>>("static_simd_cast<U> of mask", "fixed", [](const auto& k) { return stdx::static_simd_cast<U>(k); });
    mask_same<FixM<T, N>>("static_simd_cast<M> of mask", "fixed", [](const auto& k) { return stdx::static_simd_cast<FixM<U, N>>(k); });
    mask_same<FixM<T, N>>("vir::static_simd_cast of mask", "fixed", [](const auto& v) { return vir::static_simd_cast<FixM<U, N>>(v); });
    mask_same<FixM<T, N>>("mask conversion", "fixed", [](const auto& k) { return FixM<U, N>(k); });
#else
    if constexpr (N > 1)
      mask_same<FixM<T, N>>("vir::static_simd_cast of mask", "fixed", [](const auto& v) { return vir::static_simd_cast<FixM<U, N>>(v); });
#endif
#if __cplusplus >= 202002L
    using vir::cvt;
    if constexpr (not STDLIB or N > 1) {
    cast_one<U, Fix<T, N>>("cvt", "fixed", [](const auto& v) -> Fix<U, N> { return cvt(v); });
    cast_one<U, Fix<T, N>>("cvt", "fixed", [](const auto& v) { Fix<U, N> x(1); x = cvt(v); return x; });
    mask_same<FixM<T, N>>("cvt of mask", "fixed", [](const auto& k) -> FixM<U, N> { return cvt(k); });
    }
#endif
    if constexpr (N == 1)
      {
#if __cplusplus >= 202002L
        cast_one<U, Sca<T>>("cvt of scalar", "", [](const auto& v) { const T t = v[0]; const U u = cvt(t); return Sca<U>(u); });
        cast_one<U, Sca<T>>("cvt", "scalar", [](const auto& v) -> Sca<U> { return cvt(v); });
#endif
#if not STDLIB
        cast_one<U, Sca<T>>("static_simd_cast<U>", "scalar", [](const auto& v) { return stdx::static_simd_cast<U>(v); });
        cast_one<U, Sca<T>>("static_simd_cast<V>", "scalar", [](const auto& v) { return stdx::static_simd_cast<Sca<U>>(v); });
        if constexpr (preserving<T, U>)
          cast_one<U, Sca<T>>("simd_cast<U>", "scalar", [](const auto& v) { return stdx::simd_cast<U>(v); });
        mask_same<ScaM<T>>("static_simd_cast<U> of mask", "scalar", [](const auto& k) { return stdx::static_simd_cast<U>(k); });
        cast_one<U, Sca<T>>("static_simd_cast<fixed>", "scalar", [](const auto& v) { return stdx::static_simd_cast<Fix<U, 1>>(v); });
        cast_one<U, Fix<T, 1>>("static_simd_cast<scalar>", "fixed", [](const auto& v) { return stdx::static_simd_cast<Sca<U>>(v); });
        mask_same<ScaM<T>>("static_simd_cast<fixed> of mask", "scalar", [](const auto& k) { return stdx::static_simd_cast<FixM<U, 1>>(k); });
        mask_same<FixM<T, 1>>("static_simd_cast<scalar> of mask", "fixed", [](const auto& k) { return stdx::static_simd_cast<ScaM<U>>(k); });
#endif
      }
  }
template <int N>
  void casts()
  {
    cast_to<signed char, N>(); cast_to<unsigned char, N>(); cast_to<short, N>(); cast_to<unsigned short, N>(); cast_to<int, N>();
    cast_to<unsigned int, N>(); cast_to<long, N>(); cast_to<unsigned long, N>(); cast_to<float, N>(); cast_to<double, N>();
#ifdef FULL
    cast_to<char, N>(); cast_to<long long, N>(); cast_to<unsigned long long, N>(); cast_to<wchar_t, N>(); cast_to<char16_t, N>();
    cast_to<char32_t, N>(); cast_to<long double, N>();
#endif
  }

// ------------------------------------------------------------------ split and concat
template <typename V, typename F>
  void move_one(const char* op, const char* what, const char* abi, std::vector<long> p, F f)
  {
    for (int rep = 0; rep < (stdx::is_simd_mask_v<V> ? 4 : 2); ++rep)
      {
        const V v = mv::make<V>();
        mv::Rec r{op};
        r.p = tr::list(p);
        r.ty = r.sty = mv::type<mv::scalar_t<V>>();
        r.in = {mv::lanes(v)};
        r.fault = tr::guarded([&] {
          std::vector<std::string> o;
          f(v, [&](const auto&... x) { (o.push_back(mv::lanes(x)), ...); });
          r.out = o;
        });
        r.emit(label(what, abi, V::size()));
      }
  }
template <typename Part, typename V>
  void split_into(const char* what, const char* abi)
  {
    constexpr int n = V::size(), k = Part::size();
    move_one<V>("split", what, abi, std::vector<long>(n / k, k), [](const V& v, auto out) {
      const auto a = stdx::split<Part>(v);
      static_assert(a.size() == n / k);
      for (const auto& x : a)
        {
          static_assert(std::is_same_v<std::decay_t<decltype(x)>, Part>);
          out(x);
        }
    });
  }
template <std::size_t... S>
  void split_sizes()
  {
    constexpr int n = (int(S) + ...);
    move_one<Fix<T, n>>("split", "split<Sizes...>", "fixed", {long(S)...}, [](const auto& v, auto out) {
      const auto t = stdx::split<S...>(v);
      std::apply(out, t);
    });
  }
template <typename... Vs>
  void concat_of(const char* what, const char* abi)
  {
    for (int rep = 0; rep < 2; ++rep)
      {
        const std::tuple<Vs...> in{mv::make<Vs>()...};
        mv::Rec r{"concat"};
        std::apply([&](const auto&... x) {
          r.in = {mv::lanes(x)...};
          r.fault = tr::guarded([&] { r.out = {mv::lanes(stdx::concat(x...))}; });
        }, in);
        using V0 = std::tuple_element_t<0, std::tuple<Vs...>>;
        r.ty = r.sty = mv::type<mv::scalar_t<V0>>();
        r.emit(label(what, abi, (int(Vs::size()) + ...)) + " of " + std::to_string(sizeof...(Vs)));
      }
  }
template <typename V, std::size_t K>
  void concat_array(const char* what, const char* abi)
  {
    for (int rep = 0; rep < 2; ++rep)
      {
        std::array<V, K> in;
        mv::Rec r{"concat"};
        r.ty = r.sty = mv::type<mv::scalar_t<V>>();
        for (auto& x : in)
          {
            x = mv::make<V>();
            r.in.push_back(mv::lanes(x));
          }
        r.fault = tr::guarded([&] { r.out = {mv::lanes(stdx::concat(in))}; });
        r.emit(label(what, abi, V::size()) + " x " + std::to_string(K));
      }
  }
template <int N>
  void splits()
  {
    [&]<std::size_t... I>(std::index_sequence<I...>) {
      ([&] {
        constexpr int k = I + 1;
        if constexpr (N % k == 0)
          {
            split_into<Fix<T, k>, Fix<T, N>>("split<V>", "fixed");
            split_into<FixM<T, k>, FixM<T, N>>("split<M>", "fixed");
            // round trip through memory of parts
            move_one<Fix<T, N>>("same", "concat(split)", "fixed", {}, [](const auto& v, auto out) {
              out(stdx::concat(stdx::split<Fix<T, k>>(v)));
            });
            move_one<FixM<T, N>>("same", "concat(split) of mask", "fixed", {}, [](const auto& v, auto out) {
              out(stdx::concat(stdx::split<FixM<T, k>>(v)));
            });
          }
        if constexpr (N > k)
          {
            split_sizes<k, N - k>();
            concat_of<Fix<T, k>, Fix<T, N - k>>("concat", "fixed");
            concat_of<FixM<T, k>, FixM<T, N - k>>("concat of masks", "fixed");
            if constexpr (k % 2 == 1 && N > k + 1)
              {
                split_sizes<1, k, N - k - 1>();
                split_sizes<k, 1, N - k - 1>();
                concat_of<Fix<T, 1>, Fix<T, N - k - 1>, Fix<T, k>>("concat", "fixed");
                concat_of<FixM<T, 1>, FixM<T, N - k - 1>, FixM<T, k>>("concat of masks", "fixed");
              }
          }
      }(), ...);
    }(std::make_index_sequence<N>());
    split_sizes<N>();
    concat_of<Fix<T, N>>("concat", "fixed");
    concat_of<FixM<T, N>>("concat of masks", "fixed");
    split_into<Sca<T>, Fix<T, N>>("split<scalar>", "fixed");
    split_into<ScaM<T>, FixM<T, N>>("split<scalar mask>", "fixed");
    concat_array<Fix<T, N>, 1>("concat(array)", "fixed");
    concat_array<Fix<T, N>, 2>("concat(array)", "fixed");
    concat_array<FixM<T, N>, 2>("concat(array) of masks", "fixed");
    if constexpr (N <= 5)
      {
        concat_array<Fix<T, N>, 3>("concat(array)", "fixed");
        concat_array<FixM<T, N>, 3>("concat(array) of masks", "fixed");
        concat_array<Fix<T, N>, 5>("concat(array)", "fixed");
      }
    move_one<Fix<T, N>>("same", "to_fixed_size", "fixed", {}, [](const auto& v, auto out) { out(stdx::to_fixed_size(v)); });
    move_one<FixM<T, N>>("same", "to_fixed_size of mask", "fixed", {}, [](const auto& v, auto out) { out(stdx::to_fixed_size(v)); });
  }
#if SET == 1
inline void to_x()
{
  using Nat = stdx::native_simd<T>;
  using Com = stdx::simd<T>;
  constexpr int n = Nat::size(), c = Com::size();
  move_one<Fix<T, n>>("same", "to_native", "fixed", {}, [](const auto& v, auto out) {
    const auto r = stdx::to_native(v);
    static_assert(std::is_same_v<decltype(r), const Nat>);
    out(r);
  });
  move_one<FixM<T, n>>("same", "to_native of mask", "fixed", {}, [](const auto& v, auto out) { out(stdx::to_native(v)); });
  move_one<Fix<T, c>>("same", "to_compatible", "fixed", {}, [](const auto& v, auto out) {
    const auto r = stdx::to_compatible(v);
    static_assert(std::is_same_v<decltype(r), const Com>);
    out(r);
  });
  move_one<FixM<T, c>>("same", "to_compatible of mask", "fixed", {}, [](const auto& v, auto out) { out(stdx::to_compatible(v)); });
  move_one<Sca<T>>("same", "to_fixed_size", "scalar", {}, [](const auto& v, auto out) { out(stdx::to_fixed_size(v)); });
  move_one<ScaM<T>>("same", "to_fixed_size of mask", "scalar", {}, [](const auto& v, auto out) { out(stdx::to_fixed_size(v)); });
  move_one<Nat>("same", "to_fixed_size", "native", {}, [](const auto& v, auto out) { out(stdx::to_fixed_size(v)); });
  move_one<Nat>("same", "split<V>(V)", "native", {}, [](const auto& v, auto out) { out(stdx::split<Nat>(v)[0]); });
  move_one<Sca<T>>("same", "split<V>(V)", "scalar", {}, [](const auto& v, auto out) { out(stdx::split<Sca<T>>(v)[0]); });
  concat_of<Sca<T>, Sca<T>, Sca<T>>("concat", "scalar");
  concat_of<ScaM<T>, ScaM<T>>("concat of masks", "scalar");
  concat_of<Sca<T>, Fix<T, 3>, Sca<T>>("concat", "mixed");
  concat_of<Fix<T, 2>, Sca<T>, Fix<T, 4>, Fix<T, 1>, Sca<T>>("concat", "mixed");
  concat_of<FixM<T, 2>, ScaM<T>, FixM<T, 4>>("concat of masks", "mixed");
  concat_array<Sca<T>, 4>("concat(array)", "scalar");
  concat_array<ScaM<T>, 3>("concat(array) of masks", "scalar");
  split_sizes<1, 1, 1, 1>();
  split_sizes<2, 1, 3, 1, 2>();
  split_sizes<4, 4, 2, 4, 2>();
  split_sizes<1, 2, 3, 4, 5, 6>();
  split_sizes<8, 8, 8, 8>();
}

#endif

// ------------------------------------------------------------------ resize
template <int M, typename V>
  void resize_one(const char* abi)
  {
    if constexpr (ok<T, M>) {
    move_one<V>("resize", "simd_resize", abi, {M}, [](const V& v, auto out) {
      const auto r = vir::simd_resize<M>(v);
      static_assert(r.size() == M);
      out(r);
    });
    if constexpr (stdx::is_simd_v<V>)
      {
        move_one<V>("resize", "simd_size_cast<deduced>", abi, {M}, [](const V& v, auto out) { out(vir::simd_size_cast<Ded<T, M>>(v)); });
        if constexpr (not std::is_same_v<Ded<T, M>, Fix<T, M>>)
          move_one<V>("resize", "simd_size_cast<fixed>", abi, {M}, [](const V& v, auto out) { out(vir::simd_size_cast<Fix<T, M>>(v)); });
        if constexpr (M == 1)
          move_one<V>("resize", "simd_size_cast<scalar>", abi, {M}, [](const V& v, auto out) { out(vir::simd_size_cast<Sca<T>>(v)); });
      }
    else
      {
        move_one<V>("resize", "simd_size_cast<deduced> of mask", abi, {M}, [](const V& v, auto out) { out(vir::simd_size_cast<DedM<T, M>>(v)); });
        if constexpr (M == 1)
          move_one<V>("resize", "simd_size_cast<scalar> of mask", abi, {M}, [](const V& v, auto out) { out(vir::simd_size_cast<ScaM<T>>(v)); });
      }
    }
  }
template <typename V>
  void resizes(const char* abi)
  {
    constexpr int n = V::size();
    resize_one<1, V>(abi);
    resize_one<2, V>(abi);
    resize_one<3, V>(abi);
    resize_one<n, V>(abi);
    resize_one<n + 1, V>(abi);
    if constexpr (n > 1)
      resize_one<n - 1, V>(abi);
    resize_one<2 * n, V>(abi);
    resize_one<8, V>(abi);
    if constexpr (n % 2 == 0)
      resize_one<n / 2, V>(abi);
    resize_one<3 * n, V>(abi);
  }

// ------------------------------------------------------------------ bit casts
template <typename To, typename V>
  void bits_one(const char* abi)
  {
    if constexpr (sizeof(To) == sizeof(V) and To::size() * sizeof(typename To::value_type) == V::size() * sizeof(T))
      for (int rep = 0; rep < 2; ++rep)
        {
          const V v = mv::make<V>();
          mv::Rec r{"bits"};
          r.ty = mv::type<typename To::value_type>();
          r.sty = mv::type<T>();
          r.in = {mv::lanes(v)};
          r.fault = tr::guarded([&] { r.out = {mv::lanes(vir::simd_bit_cast<To>(v))}; });
          r.emit(label("simd_bit_cast", abi, V::size()) + " to " + nm<typename To::value_type>);
        }
  }
template <typename U, typename V>
  void bits_to(const char* abi)
  {
    constexpr int b = V::size() * sizeof(T);
    if constexpr (b % sizeof(U) == 0 and ok<U, b / sizeof(U)>)
      {
        bits_one<Ded<U, b / sizeof(U)>, V>(abi);
        if constexpr (not std::is_same_v<Ded<U, b / sizeof(U)>, Fix<U, b / sizeof(U)>>)
          bits_one<Fix<U, b / sizeof(U)>, V>(abi);
      }
  }
template <typename V>
  void bits(const char* abi)
  {
    if constexpr (not std::is_same_v<T, long double>)
      {
        bits_to<signed char, V>(abi); bits_to<unsigned char, V>(abi); bits_to<short, V>(abi); bits_to<unsigned int, V>(abi);
        bits_to<float, V>(abi); bits_to<double, V>(abi); bits_to<long, V>(abi); bits_to<unsigned long long, V>(abi);
      }
    bits_to<T, V>(abi);
    // masks of equally sized elements
    using M = typename V::mask_type;
    using U = std::conditional_t<sizeof(T) == 1, unsigned char, std::conditional_t<sizeof(T) == 2, unsigned short,
                std::conditional_t<sizeof(T) == 4, std::conditional_t<std::is_same_v<T, float>, int, float>,
                  std::conditional_t<std::is_same_v<T, double>, long, double>>>>;
    if constexpr (sizeof(T) <= 8)
      {
        using M2 = stdx::rebind_simd_t<U, M>;
        if constexpr (M2::size() == M::size() and sizeof(M2) == sizeof(M))
          mask_same<M>("simd_bit_cast of mask", abi, [](const M& k) { return vir::simd_bit_cast<M2>(k); });
      }
    mask_same<M>("simd_bit_cast of mask to itself", abi, [](const M& k) { return vir::simd_bit_cast<M>(k); });
  }

// ------------------------------------------------------------------ bitset
template <typename M>
  void bitset(const char* abi)
  {
    constexpr int n = M::size();
    using A = typename M::abi_type;
    mask_same<M>("to_bitset", abi, [](const M& k) {
      const std::bitset<n> b = vir::to_bitset(k);
      std::vector<bool> v;
      for (int i = 0; i < n; ++i)
        v.push_back(b[i]);
      return v;
    });
    auto back = [&](const char* what, auto f) {
      for (int rep = 0; rep < 4; ++rep)
        {
          std::bitset<n> b;
          std::vector<bool> v;
          for (int i = 0; i < n; ++i)
            v.push_back(b[i] = mv::random<bool>());
          mv::Rec r{"same"};
          r.ty = r.sty = mv::type<bool>();
          r.in = {mv::lanes(v)};
          r.fault = tr::guarded([&] { r.out = {mv::lanes(f(b))}; });
          r.emit(label(what, abi, n));
        }
    };
    back("to_simd_mask<M>", [](auto b) { return vir::to_simd_mask<M>(b); });
    back("to_simd_mask<T, A>", [](auto b) { return vir::to_simd_mask<T, A>(b); });
    back("to_simd_mask<T, N>", [](auto b) { return vir::to_simd_mask<T, n>(b); });
    mask_same<M>("to_simd_mask(to_bitset)", abi, [](const M& k) { return vir::to_simd_mask<M>(vir::to_bitset(k)); });
  }

template <typename V>
  void set2(const char* abi)
  {
#if SET == 2
    resizes<V>(abi);
    resizes<typename V::mask_type>(abi);
#else
    bits<V>(abi);
    bitset<typename V::mask_type>(abi);
#endif
  }

int main()
{
  tr::install();
  mv::rng = tr::Rng(tr::seed() * 91 + SET);
  for (int rep = 0; rep < (tr::thorough() ? 3 : 1); ++rep)
    {
#if SET == 0
      casts<1>();
      casts<3>();
      casts<8>();
#elif SET == 4
      casts<2>();
      casts<4>();
      casts<17>();
#elif SET == 1
      splits<1>(); splits<2>(); splits<3>(); splits<4>(); splits<6>(); splits<7>(); splits<8>(); splits<12>();
      to_x();
#elif SET == 5 // wide (fallback)
      cast_to<unsigned char, 40>(); cast_to<long, 40>(); cast_to<float, 65>(); cast_to<short, 100>();
      split_into<Fix<T, 20>, Fix<T, 40>>("split<V>", "fixed"); split_into<FixM<T, 20>, FixM<T, 40>>("split<M>", "fixed");
      split_into<Fix<T, 33>, Fix<T, 66>>("split<V>", "fixed"); split_into<FixM<T, 33>, FixM<T, 66>>("split<M>", "fixed");
      split_into<Sca<T>, Fix<T, 65>>("split<scalar>", "fixed"); split_into<ScaM<T>, FixM<T, 70>>("split<scalar mask>", "fixed");
      split_sizes<33, 7>(); split_sizes<1, 64, 5>(); split_sizes<3, 40, 20, 7>(); split_sizes<16, 16, 16, 16, 16>();
      split_sizes<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>();
      concat_of<Fix<T, 33>, Fix<T, 34>>("concat", "fixed"); concat_of<FixM<T, 33>, FixM<T, 34>>("concat of masks", "fixed");
      concat_of<Fix<T, 7>, Fix<T, 64>, Fix<T, 2>>("concat", "fixed"); concat_of<FixM<T, 7>, FixM<T, 64>, FixM<T, 2>>("concat of masks", "fixed");
      concat_of<Fix<T, 1>, Fix<T, 2>, Fix<T, 3>, Fix<T, 4>, Fix<T, 5>, Fix<T, 6>>("concat", "fixed");
      concat_of<FixM<T, 6>, FixM<T, 1>, FixM<T, 5>, FixM<T, 2>, FixM<T, 4>, FixM<T, 3>>("concat of masks", "fixed");
      concat_array<Fix<T, 33>, 2>("concat(array)", "fixed"); concat_array<FixM<T, 33>, 2>("concat(array) of masks", "fixed");
      concat_array<Fix<T, 8>, 9>("concat(array)", "fixed"); concat_array<FixM<T, 7>, 10>("concat(array) of masks", "fixed");
      resize_one<40, Fix<T, 3>>("fixed"); resize_one<33, Fix<T, 32>>("fixed"); resize_one<65, Fix<T, 33>>("fixed"); resize_one<33, Fix<T, 65>>("fixed");
      resize_one<130, Fix<T, 100>>("fixed"); resize_one<64, Fix<T, 130>>("fixed"); resize_one<100, Sca<T>>("scalar");
      resize_one<40, FixM<T, 3>>("fixed"); resize_one<33, FixM<T, 32>>("fixed"); resize_one<65, FixM<T, 33>>("fixed"); resize_one<33, FixM<T, 65>>("fixed");
      resize_one<130, FixM<T, 100>>("fixed"); resize_one<64, FixM<T, 130>>("fixed"); resize_one<100, ScaM<T>>("scalar");
      bitset<FixM<T, 33>>("fixed"); bitset<FixM<T, 40>>("fixed"); bitset<FixM<T, 63>>("fixed"); bitset<FixM<T, 64>>("fixed");
      bitset<FixM<T, 65>>("fixed"); bitset<FixM<T, 70>>("fixed"); bitset<FixM<T, 100>>("fixed"); bitset<FixM<T, 130>>("fixed");
      bits<Fix<T, 40>>("fixed"); bits<Fix<T, 64>>("fixed");
#else
      set2<Sca<T>>("scalar");
      set2<Fix<T, 1>>("fixed");
      set2<Fix<T, 3>>("fixed");
      set2<Fix<T, 4>>("fixed");
      set2<Fix<T, 8>>("fixed");
      set2<Fix<T, 12>>("fixed");
      set2<stdx::native_simd<T>>("native");
      set2<Ded<T, 3>>("deduced");
      set2<Ded<T, 2>>("deduced");
      set2<Ded<T, 4>>("deduced");
      set2<Fix<T, 32>>("fixed");
#endif
    }
}
