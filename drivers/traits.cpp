// Recording of traits, concepts, iota, floating-point bit operators and version; see spec/TraitsTrace.tla.
//   -DSET=0 concepts and simdize, 1 traits, 2 iota, 3 floating-point bit operators, 4 version (any language standard)
#include "trace.h"
#include <vir/simd_version.h>
#include <string>
#include <array>
#include <complex>
#include <tuple>
#if SET != 4
#include "move_common.h"
#include <vir/simd_concepts.h>
#include <vir/simd_float_ops.h>
#include <vir/simd_iota.h>
#include <vir/simdize.h>
#endif

template <typename T>
  std::string tname()
  {
    std::string s = __PRETTY_FUNCTION__;
    const auto p = s.find("T = ") + 4;
    return s.substr(p, (s.find(';', p) != s.npos ? s.find(';', p) : s.rfind(']')) - p);
  }

#if SET != 4
#ifdef __AVX512F__
constexpr int fb = 64, ib = 64;
#elif defined __AVX2__
constexpr int fb = 32, ib = 32;
#elif defined __AVX__
constexpr int fb = 32, ib = 16;
#else
constexpr int fb = 16, ib = 16;
#endif

template <typename T> struct D2 { T a, b; };
struct Mixed { float a; double b; short c; };
struct MixedN { float a; Mixed b; };
struct NotV { float a; std::string b; };
struct HasBool { float a; bool b; };
struct Sub : D2<float> {};

// description of a type
template <typename T>
  struct describe
  {
    static std::string get()
    {
      if constexpr (std::is_arithmetic_v<T>)
        return "{\"k\":\"arith\",\"t\":\"" + tname<T>() + "\",\"bytes\":" + std::to_string(sizeof(T)) + ",\"fp\":" + (std::is_floating_point_v<T> ? "1" : "0") + "}";
      else
        return "{\"k\":\"other\"}";
    }
  };
template <int N> std::string tag() { return "{\"k\":\"abi\"}"; }
template <> struct describe<stdx::simd_abi::scalar> { static std::string get() { return tag<0>(); } };
template <int N> struct describe<stdx::simd_abi::fixed_size<N>> { static std::string get() { return tag<0>(); } };
template <typename T, typename A, int N> std::string simd_like(const char* k, bool ok)
{ return std::string("{\"k\":\"") + k + "\",\"t\":\"" + tname<T>() + "\",\"n\":" + std::to_string(N) + ",\"ok\":" + (ok ? "1" : "0") + "}"; }
template <typename T, typename A> constexpr bool valid = std::is_arithmetic_v<T> and not std::is_same_v<T, bool> and stdx::is_abi_tag_v<A>;
template <typename T, typename A> struct describe<stdx::simd<T, A>>
{
  static std::string get()
  {
    if constexpr (valid<T, A>)
      return simd_like<T, A, int(stdx::simd<T, A>::size())>("simd", true);
    else
      return simd_like<T, A, 0>("simd", false);
  }
};
template <typename T, typename A> struct describe<stdx::simd_mask<T, A>>
{
  static std::string get()
  {
    if constexpr (valid<T, A>)
      return simd_like<T, A, int(stdx::simd_mask<T, A>::size())>("mask", true);
    else
      return simd_like<T, A, 0>("mask", false);
  }
};
template <typename... Ts> std::string members()
{
  std::string r;
  ((r += (r.empty() ? "" : ",") + describe<Ts>::get()), ...);
  return "{\"k\":\"struct\",\"m\":[" + r + "]}";
}
template <typename... Ts> struct describe<std::tuple<Ts...>> { static std::string get() { return members<Ts...>(); } };
template <typename A, typename B> struct describe<std::pair<A, B>> { static std::string get() { return members<A, B>(); } };
template <typename T> struct describe<std::array<T, 2>> { static std::string get() { return members<T, T>(); } };
template <typename T> struct describe<std::array<T, 3>> { static std::string get() { return members<T, T, T>(); } };
template <typename T> struct describe<D2<T>> { static std::string get() { return members<T, T>(); } };
template <> struct describe<Mixed> { static std::string get() { return members<float, double, short>(); } };
template <> struct describe<MixedN> { static std::string get() { return members<float, Mixed>(); } };
template <> struct describe<NotV> { static std::string get() { return members<float, std::string>(); } };
template <> struct describe<HasBool> { static std::string get() { return members<float, bool>(); } };

template <typename V, typename A, std::size_t N>
  void concepts_one()
  {
    tr::Out o;
    std::vector<int> r = {vir::arithmetic<V>, vir::vectorizable<V>, vir::simd_abi_tag<V>, vir::any_simd<V>, vir::any_simd_mask<V>,
                          vir::any_simd_or_mask<V>, vir::typed_simd<V, A>, vir::sized_simd<V, N>, vir::sized_simd_mask<V, N>, vir::vectorizable_struct<V>};
    o.str("op", "concepts").raw("d", describe<V>::get()).str("t", tname<A>()).num("n", N).raw("out", tr::list(r));
    o.emit("concepts of " + tname<V>());
  }
template <typename V> void concepts()
{
  concepts_one<V, float, 4>(); concepts_one<V, int, 1>(); concepts_one<V, short, 8>(); concepts_one<V, unsigned char, 3>(); concepts_one<V, long double, 2>();
}
template <typename... Vs> void concepts_all() { (concepts<Vs>(), ...); }

template <typename T> void simdize_size()
{
  tr::Out o;
  o.str("op", "simdize_size").raw("d", describe<T>::get()).num("out", vir::simdize_size_v<T>);
  o.emit("simdize_size of " + tname<T>());
}
template <typename... Ts> void simdize_sizes() { (simdize_size<Ts>(), ...); }

// type of the components of a simdized type, recursively
template <typename V> std::string component()
{
  if constexpr (stdx::is_simd_v<V>)
    return describe<V>::get();
  else
    {
      std::string r;
      [&]<std::size_t... I>(std::index_sequence<I...>) {
        ((r += (I ? "," : "") + component<std::remove_cvref_t<std::tuple_element_t<I, V>>>()), ...);
      }(std::make_index_sequence<std::tuple_size_v<V>>());
      return "{\"k\":\"struct\",\"m\":[" + r + "]}";
    }
}
template <typename T, int N> void simdize_one()
{
  using V = vir::simdize<T, N>;
  tr::Out o;
  std::string c = component<V>();
  c = c.substr(c.find('['));
  c.pop_back();
  o.str("op", "simdize").raw("d", describe<T>::get()).num("n", N).num("size", V::size()).num("msize", vir::simdize_size_v<V>).num("tuple_size", std::tuple_size_v<V>).raw("out", c);
  o.emit("simdize<" + tname<T>() + ", " + std::to_string(N) + ">");
}
template <typename T> void simdize_default()
{
  tr::Out o;
  using V = vir::simdize<T>;
  o.str("op", "simdize default").raw("d", describe<T>::get()).num("fb", fb).num("ib", ib).num("out", V::size());
  o.emit("simdize<" + tname<T>() + ">");
  if constexpr (not std::is_arithmetic_v<T>)
    {
      simdize_one<T, int(V::size())>(); simdize_one<T, 1>(); simdize_one<T, 2>(); simdize_one<T, 3>(); simdize_one<T, 4>(); simdize_one<T, 8>();
      tr::Out p;
      p.str("op", "identity").num("out", std::is_same_v<vir::resize_simdize_t<4, V>, vir::simdize<T, 4>> and std::is_same_v<vir::resize_simdize_t<3, vir::simdize<T, 8>>, vir::simdize<T, 3>>);
      p.emit("resize_simdize_t of " + tname<T>());
    }
}
template <typename... Ts> void simdize_defaults() { (simdize_default<Ts>(), ...); }
template <typename T> void not_simdized()
{
  tr::Out p;
  p.str("op", "identity").num("out", std::is_same_v<vir::simdize<T>, T>);
  p.emit("simdize<" + tname<T>() + "> is no transformation");
}

// ------------------------------------------------------------------ traits
template <typename V> void type_is(const char* what, const std::string& d)
{
  tr::Out o;
  o.str("op", "type").raw("d", d).raw("out", describe<V>::get());
  o.emit(std::string(what) + " " + tname<V>());
}
template <typename T, int N> std::string simd_desc(const char* k = "simd") { return simd_like<T, void, N>(k, true); }
void size_is(const char* what, long n, long out)
{
  tr::Out o;
  o.str("op", "size").num("n", n).num("out", out);
  o.emit(what);
}
template <typename V, typename U> void alignment()
{
  tr::Out o;
  o.str("op", "alignment").num("least", alignof(U)).num("out", stdx::memory_alignment_v<V, U>);
  o.emit("memory_alignment of " + tname<V>());
}
template <typename T, typename V, typename M, int... Ns> void resized()
{
  (type_is<stdx::resize_simd_t<Ns, V>>("resize_simd_t", simd_desc<T, Ns>()), ...);
  (type_is<stdx::resize_simd_t<Ns, M>>("resize_simd_t", simd_desc<T, Ns>("mask")), ...);
}
template <typename T, typename A, int N> void abi()
{
  using V = stdx::simd<T, A>;
  using M = stdx::simd_mask<T, A>;
  size_is("simd_size_v", N, stdx::simd_size_v<T, A>);
  size_is("simd_size", N, stdx::simd_size<T, A>::value);
  size_is("simd::size", N, V::size());
  size_is("simd_mask::size", N, M::size());
  type_is<V>("simd", simd_desc<T, N>());
  type_is<M>("simd_mask", simd_desc<T, N>("mask"));
  type_is<typename V::mask_type>("mask_type", simd_desc<T, N>("mask"));
  type_is<typename M::simd_type>("simd_type", simd_desc<T, N>());
  size_is("value_type", 1, std::is_same_v<typename V::value_type, T> and std::is_same_v<typename M::value_type, bool>);
  size_is("abi_type", 1, std::is_same_v<typename V::abi_type, A> and std::is_same_v<typename M::abi_type, A>);
  size_is("is_simd", 1, stdx::is_simd_v<V> and not stdx::is_simd_v<M> and not stdx::is_simd_v<V&> and not stdx::is_simd_v<T>);
  size_is("is_simd_mask", 1, stdx::is_simd_mask_v<M> and not stdx::is_simd_mask_v<V> and not stdx::is_simd_mask_v<bool>);
  alignment<V, T>();
  alignment<V, double>();
  alignment<V, unsigned char>();
  alignment<M, bool>();
  // std::experimental::simd has no ABI for more than 64 chars in AVX-512 registers
  if constexpr (N <= 32)
    {
      type_is<stdx::rebind_simd_t<short, V>>("rebind_simd_t", simd_desc<short, N>());
      type_is<stdx::rebind_simd_t<float, V>>("rebind_simd_t", simd_desc<float, N>());
      type_is<stdx::rebind_simd_t<double, M>>("rebind_simd_t", simd_desc<double, N>("mask"));
      type_is<stdx::rebind_simd_t<unsigned char, M>>("rebind_simd_t", simd_desc<unsigned char, N>("mask"));
    }
  resized<T, V, M, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 17, 31, 32>();
}
template <typename T, int... Ns> void deduced()
{
  (type_is<stdx::simd<T, stdx::simd_abi::deduce_t<T, Ns>>>("deduce_t", simd_desc<T, Ns>()), ...);
  tr::Out one;
  one.str("op", "identity").num("out", std::is_same_v<stdx::simd_abi::deduce_t<T, 1>, stdx::simd_abi::scalar>);
  one.emit(LABEL " deduce_t<T, 1> of " + tname<T>());
  (type_is<stdx::simd_mask<T, stdx::simd_abi::deduce_t<T, Ns>>>("deduce_t", simd_desc<T, Ns>("mask")), ...);
  (type_is<stdx::fixed_size_simd<T, Ns>>("fixed_size_simd", simd_desc<T, Ns>()), ...);
  (type_is<stdx::fixed_size_simd_mask<T, Ns>>("fixed_size_simd_mask", simd_desc<T, Ns>("mask")), ...);
}
template <typename T> void traits()
{
  tr::Out o;
  using N = stdx::native_simd<T>;
  o.str("op", "native").raw("d", describe<T>::get()).num("fb", fb).num("ib", ib).num("out", N::size());
  o.emit("native_simd<" + tname<T>() + ">");
  size_is("native mask", N::size(), stdx::native_simd_mask<T>::size());
  using C = stdx::simd<T>;
  tr::Out p;
  p.str("op", "native").raw("d", describe<T>::get()).num("fb", 16).num("ib", 16).num("out", C::size());
  p.emit("simd<" + tname<T>() + ">");
  abi<T, stdx::simd_abi::scalar, 1>();
  abi<T, stdx::simd_abi::fixed_size<1>, 1>();
  abi<T, stdx::simd_abi::fixed_size<2>, 2>();
  abi<T, stdx::simd_abi::fixed_size<3>, 3>();
  abi<T, stdx::simd_abi::fixed_size<8>, 8>();
  abi<T, stdx::simd_abi::fixed_size<32>, 32>();
  abi<T, stdx::simd_abi::native<T>, int(N::size())>();
  abi<T, stdx::simd_abi::compatible<T>, int(C::size())>();
  deduced<T, 1, 2, 3, 4, 5, 6, 7, 8, 12, 15, 16, 17, 31, 32>();
  size_is("max_fixed_size", 1, stdx::simd_abi::max_fixed_size<T> >= 32);
}
template <typename... Ts> void traits_all() { (traits<Ts>(), ...); }

// ------------------------------------------------------------------ iota
template <typename C, typename T, int N> void iota(const C& c)
{
  std::string s = "[";
  for (int i = 0; i < N; ++i)
    {
      T x;
      if constexpr (std::is_arithmetic_v<C>)
        x = c;
      else
        x = c[i];
      s += (i ? "," : "") + tr::limbs(x);
    }
  tr::Out o;
  o.str("op", "iota").raw("ty", mv::type<T>()).num("n", N).raw("out", s + "]");
  o.emit("iota_v<" + tname<C>() + ">");
}
template <typename T, int... Ns> void iotas()
{
  iota<T, T, 1>(vir::iota_v<T>);
  (iota<stdx::fixed_size_simd<T, Ns>, T, Ns>(vir::iota_v<stdx::fixed_size_simd<T, Ns>>), ...);
  iota<stdx::native_simd<T>, T, int(stdx::native_simd<T>::size())>(vir::iota_v<stdx::native_simd<T>>);
  iota<stdx::simd<T>, T, int(stdx::simd<T>::size())>(vir::iota_v<stdx::simd<T>>);
  iota<stdx::simd<T, stdx::simd_abi::scalar>, T, 1>(vir::iota_v<stdx::simd<T, stdx::simd_abi::scalar>>);
  (iota<std::array<T, Ns>, T, Ns>(vir::iota_v<std::array<T, Ns>>), ...);
  (iota<T[Ns], T, Ns>(vir::iota_v<T[Ns]>), ...);
  iota<std::array<T, 300>, T, 300>(vir::iota_v<std::array<T, 300>>);
  iota<T[70], T, 70>(vir::iota_v<T[70]>);
}

// ------------------------------------------------------------------ bit operators
template <typename V> void bitops()
{
  using namespace vir::simd_float_ops;
  for (int rep = 0; rep < (tr::thorough() ? 60 : 12); ++rep)
    {
      const V a = mv::make<V>(), b = mv::make<V>();
      const auto emit = [&](const char* name, const V& r) {
        tr::Out o;
        o.str("op", "bitop").str("name", name).raw("a", mv::lanes(a)).raw("b", mv::lanes(b)).raw("out", mv::lanes(r));
        o.emit(std::string("floating-point operator") + name + " on " + tname<V>());
      };
      emit("&", a & b);
      emit("|", a | b);
      emit("^", a ^ b);
    }
}
template <typename T, int... Ns> void bitops_all()
{
  (bitops<stdx::fixed_size_simd<T, Ns>>(), ...);
  bitops<stdx::native_simd<T>>();
  bitops<stdx::simd<T>>();
  bitops<stdx::simd<T, stdx::simd_abi::scalar>>();
}
#endif

// ------------------------------------------------------------------ versions
void versions()
{
  tr::Out m;
  const auto v = vir::simd_version;
  m.str("op", "version macro").num("version", VIR_SIMD_VERSION).raw("v", tr::list(std::vector<int>{VIR_SIMD_VERSION_MAJOR, VIR_SIMD_VERSION_MINOR, VIR_SIMD_VERSION_PATCHLEVEL}))
    .raw("constant", tr::list(std::vector<int>{v.major, v.minor, v.patchlevel}));
  m.emit("version macros");
  const int xs[] = {0, 1, 2, 200};
  for (int i = 0; i < 64; ++i)
    for (int j = 0; j < 64; ++j)
      {
        const vir::simd_version_t a{xs[i % 4], xs[i / 4 % 4], xs[i / 16]}, b{xs[j % 4], xs[j / 4 % 4], xs[j / 16]};
        tr::Out o;
        o.str("op", "version").raw("a", tr::list(std::vector<int>{a.major, a.minor, a.patchlevel})).raw("b", tr::list(std::vector<int>{b.major, b.minor, b.patchlevel}))
          .raw("out", tr::list(std::vector<int>{a == b, a != b, a < b, a <= b, a > b, a >= b}));
        o.emit("comparison of versions");
      }
}

int main()
{
#if SET == 0
  concepts_all<bool, char, signed char, unsigned char, short, int, unsigned, long, unsigned long long, wchar_t, char16_t, float, double, long double,
               void, float*, int&, const int&, std::string, std::complex<float>, std::nullptr_t, NotV, HasBool, Mixed, MixedN, D2<float>,
               stdx::simd_abi::scalar, stdx::simd_abi::fixed_size<4>, stdx::simd_abi::fixed_size<7>,
               stdx::simd<float>, stdx::native_simd<int>, stdx::fixed_size_simd<float, 4>, stdx::fixed_size_simd<int, 4>, stdx::fixed_size_simd<short, 8>,
               stdx::fixed_size_simd<unsigned char, 3>, stdx::simd<int, stdx::simd_abi::scalar>, stdx::simd<long double>, stdx::fixed_size_simd<long double, 2>,
               stdx::simd_mask<float>, stdx::fixed_size_simd_mask<float, 4>, stdx::fixed_size_simd_mask<short, 8>, stdx::simd_mask<int, stdx::simd_abi::scalar>,
               stdx::simd<bool, stdx::simd_abi::scalar>, stdx::simd<float, int>, stdx::simd_mask<float, int>, stdx::simd<std::string, stdx::simd_abi::scalar>,
               std::tuple<float, int>, std::tuple<float, std::tuple<int, short>>, std::tuple<float, bool>, std::tuple<>, std::tuple<float, std::string>, std::pair<float, char>,
               std::array<float, 3>>();
  using V4 = stdx::fixed_size_simd<float, 4>;
  using I4 = stdx::fixed_size_simd<int, 4>;
  using V3 = stdx::fixed_size_simd<double, 3>;
  simdize_sizes<V4, I4, V3, stdx::native_simd<float>, stdx::simd<int, stdx::simd_abi::scalar>, float, int, bool, std::string, float*, V4::mask_type,
                std::tuple<V4>, std::tuple<V4, I4>, std::tuple<V4, V3>, std::tuple<V4, float>, std::tuple<float, V4>, std::tuple<float, int>,
                std::tuple<V4, std::tuple<I4, V4>>, std::tuple<std::tuple<V4, V3>, V4>, std::tuple<V4, std::tuple<V3>>, std::tuple<std::tuple<V3>, V3>,
                D2<V4>, D2<float>, D2<D2<V4>>, D2<std::tuple<V4, I4>>, std::array<V4, 2>, std::array<V3, 3>, std::pair<V4, I4>, std::pair<V3, V4>, std::pair<V4, std::string>>();
  simdize_defaults<float, double, short, unsigned char, int, long, std::tuple<float>, std::tuple<float, double>, std::tuple<double, short>, std::tuple<long, long>,
                   std::tuple<unsigned char, double, int>, std::pair<int, short>, std::array<float, 3>, D2<float>, D2<double>, D2<unsigned short>, Mixed, MixedN,
                   std::tuple<float, std::tuple<double, short>>, std::tuple<D2<float>, int>>();
  not_simdized<bool>(); not_simdized<std::tuple<>>(); not_simdized<std::string>(); not_simdized<float*>(); not_simdized<NotV>(); not_simdized<std::tuple<float, std::string>>();
#elif SET == 1
  traits_all<char, signed char, unsigned char, short, unsigned short, int, unsigned>();
  size_is("is_abi_tag", 1, stdx::is_abi_tag_v<stdx::simd_abi::scalar> and stdx::is_abi_tag_v<stdx::simd_abi::fixed_size<5>> and not stdx::is_abi_tag_v<int>
                             and not stdx::is_abi_tag_v<stdx::simd<int>>);
  size_is("is_simd_flag_type", 1, stdx::is_simd_flag_type_v<stdx::element_aligned_tag> and stdx::is_simd_flag_type_v<stdx::vector_aligned_tag>
                                    and stdx::is_simd_flag_type_v<stdx::overaligned_tag<32>> and not stdx::is_simd_flag_type_v<int>
                                    and not stdx::is_simd_flag_type_v<stdx::simd_abi::scalar>);
#elif SET == 5
  traits_all<long, unsigned long, long long, wchar_t, char16_t, float, double, long double>();
#elif SET == 2
  iotas<char, 1, 2, 3, 4, 8, 16, 17, 32>(); iotas<unsigned char, 1, 2, 5, 16, 32>(); iotas<short, 1, 3, 8, 16, 31>(); iotas<int, 1, 2, 3, 4, 5, 8, 16, 32>();
  iotas<unsigned, 2, 7, 8>(); iotas<long, 1, 2, 4, 8, 9>(); iotas<unsigned long, 3, 4>(); iotas<float, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 32>(); iotas<double, 1, 2, 3, 4, 8, 15>();
  iotas<long double, 1, 2, 5>();
#elif SET == 3
  bitops_all<float, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 17, 32>();
  bitops_all<double, 1, 2, 3, 4, 5, 7, 8, 9, 16>();
  bitops_all<long double, 1, 2, 3, 4, 5, 8>();
#else
  versions();
#endif
}
