// Recording of vir/struct_reflect.h; see spec/ReflectTrace.tla.
#include "trace.h"
#ifdef WITH_SIMD
#include <vir/simd.h>
#endif
#include <vir/struct_reflect.h>
#include <array>
#include <complex>
#include <memory>
#include <string>
#include <tuple>
#include <boost/preprocessor/repetition/repeat.hpp>
#include <boost/preprocessor/repetition/enum.hpp>
#ifndef LO
#define LO 1
#define HI 50
#endif
#ifndef KIND
#define KIND 0
#endif

template <typename T>
  std::string tname()
  {
    std::string s = __PRETTY_FUNCTION__;
    const auto p = s.find("T = ") + 4;
    return s.substr(p, (s.find(';', p) != s.npos ? s.find(';', p) : s.rfind(']')) - p);
  }

// "ty": type without reference and cv, "c": const, "at": offset inside the object
template <typename T>
  std::string type_json()
  {
    using U = std::remove_reference_t<T>;
    return "\"ty\":\"" + tname<std::remove_cv_t<U>>() + "\",\"c\":" + (std::is_const_v<U> ? "1" : "0");
  }
template <typename T>
  std::string val(const T& x)
  {
    if constexpr (std::is_arithmetic_v<T> or std::is_enum_v<T>)
      return std::to_string(static_cast<int>(x));
    else
      {
        const unsigned char* p = reinterpret_cast<const unsigned char*>(&x);
        unsigned h = 7;
        for (unsigned i = 0; i < sizeof(T); ++i)
          h = h * 31 + p[i];
        return std::to_string(h % 1000000);
      }
  }
template <> std::string val(const std::string& x) { return std::to_string(1000000 + x.size()); }
template <typename T, typename O>
  std::string ref_json(const O& o, T& x)
  {
    return "{" + type_json<T>() + ",\"at\":"
             + std::to_string(reinterpret_cast<const char*>(std::addressof(x)) - reinterpret_cast<const char*>(std::addressof(o)))
             + ",\"v\":" + val(x) + "}";
  }
inline std::string join(const std::vector<std::string>& v)
{
  std::string r = "[";
  for (auto& x : v)
    r += (r.size() > 1 ? "," : "") + x;
  return r + "]";
}
template <typename T> struct pack { static constexpr bool is = false; };
template <typename... Ts> struct pack<std::tuple<Ts...>>
{
  static constexpr const char* kind = "tuple";
  static std::string types() { return join({"{" + type_json<Ts>() + ",\"ref\":" + (std::is_lvalue_reference_v<Ts> ? "1" : "0") + "}"...}); }
};
template <typename A, typename B> struct pack<std::pair<A, B>>
{
  static constexpr const char* kind = "pair";
  static std::string types() { return pack<std::tuple<A, B>>::types(); }
};
template <typename T>
  std::string as_json()
  {
    using U = std::remove_reference_t<T>;
    return std::string("{\"kind\":\"") + pack<std::remove_cv_t<U>>::kind + "\",\"types\":" + pack<std::remove_cv_t<U>>::types() + ",\"c\":"
             + (std::is_const_v<U> ? "1" : "0") + ",\"ref\":\"" + (std::is_lvalue_reference_v<T> ? "l" : std::is_rvalue_reference_v<T> ? "r" : "") + "\"}";
  }
template <typename Tp>
  std::string values(const Tp& t)
  {
    return std::apply([](const auto&... xs) { return join({val(xs)...}); }, t);
  }
template <typename O, typename Tp>
  std::string refs(const O& o, const Tp& t)
  {
    return std::apply([&](auto&... xs) { return join({ref_json(o, xs)...}); }, t);
  }

// Tup: whether the members can be copied into a tuple
template <bool Tup = true, typename S>
  void record(const std::string& name, S& o, const std::vector<std::string>& decl)
  {
    constexpr std::size_t n = vir::struct_size_v<S>;
    tr::Out out;
    out.str("op", "struct").str("name", name).raw("decl", join(decl)).num("size", n).num("csize", 0 + vir::struct_size_v<const S>)
      .num("reflectable", vir::reflectable_struct<S> and vir::reflectable_struct<const S&> and vir::reflectable_struct<S&&>);
    const S& co = o;
    std::string get, cget, el, cel;
    [&]<std::size_t... I>(std::index_sequence<I...>) {
      get = join({ref_json(o, vir::struct_get<I>(o))...});
      cget = join({ref_json(o, vir::struct_get<I>(co))...});
      el = join({"{" + type_json<vir::struct_element_t<I, S>>() + "}"...});
      cel = join({"{" + type_json<typename vir::struct_element<I, const S>::type>() + "}"...});
    }(std::make_index_sequence<n>());
    out.raw("get", get).raw("cget", cget).raw("el", el).raw("cel", cel);
    std::string tup = "{\"has\":0}", ref = "{\"has\":0}", pr = "{\"has\":0}";
    if constexpr (n <= 50)
      {
        const auto t = vir::to_tuple_ref(o);
        const auto c = vir::to_tuple_ref(co);
        ref = "{\"has\":1,\"l\":" + as_json<decltype(vir::to_tuple_ref(o))>() + ",\"r\":" + refs(o, t) + ",\"cl\":" + as_json<decltype(vir::to_tuple_ref(co))>()
                + ",\"cr\":" + refs(o, c) + "}";
      }
    if constexpr (Tup)
      {
        tup = "{\"has\":1,\"l\":" + as_json<decltype(vir::to_tuple(o))>() + ",\"v\":" + values(vir::to_tuple(o)) + ",\"cv\":" + values(vir::to_tuple(co))
                + ",\"as\":" + join({as_json<vir::as_tuple_t<S>>(), as_json<vir::as_tuple_t<const S>>(), as_json<vir::as_tuple_t<S&>>(),
                                     as_json<vir::as_tuple_t<const S&>>(), as_json<vir::as_tuple_t<S&&>>()}) + "}";
        if constexpr (n == 2)
          {
            const auto t = vir::to_pair_ref(o);
            const auto c = vir::to_pair_ref(co);
            pr = "{\"has\":1,\"l\":" + as_json<decltype(vir::to_pair(o))>() + ",\"v\":" + values(vir::to_pair(o)) + ",\"cv\":" + values(vir::to_pair(co))
                   + ",\"rl\":" + as_json<decltype(vir::to_pair_ref(o))>() + ",\"r\":" + refs(o, t)
                   + ",\"crl\":" + as_json<decltype(vir::to_pair_ref(co))>() + ",\"cr\":" + refs(o, c)
                   + ",\"as\":" + join({as_json<vir::as_pair_t<S>>(), as_json<vir::as_pair_t<const S>>(), as_json<vir::as_pair_t<S&>>(),
                                        as_json<vir::as_pair_t<const S&>>(), as_json<vir::as_pair_t<S&&>>()}) + "}";
          }
      }
    out.raw("tup", tup).raw("ref", ref).raw("pair", pr);
    out.emit("reflection of " + name);
    // a write through the reference reaches the member
    [&]<std::size_t... I>(std::index_sequence<I...>) {
      ([&] {
        auto& x = vir::struct_get<I>(o);
        using X = std::remove_reference_t<decltype(x)>;
        if constexpr (std::is_arithmetic_v<X> and not std::is_const_v<X>)
          {
            unsigned char before[sizeof(S)], after[sizeof(S)];
            std::memcpy(before, &o, sizeof(S));
            if constexpr (std::is_same_v<X, bool>) x = not x; else x = static_cast<X>(x + 1);
            std::memcpy(after, &o, sizeof(S));
            long outside = 0, inside = 0;
            const long at = reinterpret_cast<const char*>(&x) - reinterpret_cast<const char*>(&o);
            for (long b = 0; b < long(sizeof(S)); ++b)
              if (before[b] != after[b])
                ++(b >= at && b < at + long(sizeof(X)) ? inside : outside);
            tr::Out w;
            w.str("op", "write").str("name", name).raw("decl", join(decl)).num("i", I).num("at", at).num("changed", inside > 0).num("outside", outside);
            w.emit("write through struct_get of " + name);
          }
      }(), ...);
    }(std::make_index_sequence<n>());
  }
template <typename S>
  void size_only(const std::string& name, int members)
  {
    tr::Out out;
    out.str("op", "size").str("name", name).num("n", members).num("size", vir::struct_size_v<S>);
    out.emit("struct_size_v of " + name);
  }
template <typename T>
  void concept_only(const std::string& name, bool expected)
  {
    tr::Out out;
    out.str("op", "concept").str("name", name).num("n", expected).num("size", vir::reflectable_struct<T>);
    out.emit("reflectable_struct of " + name);
  }

// ------------------------------------------------------------ all arities
template <int K, int N, int I>
  using MT = std::conditional_t<K == 1, char, std::conditional_t<K == 2, double, std::tuple_element_t<
               (I * 5 + N * 3) % 11, std::tuple<char, int, double, short, float, const long, unsigned char, unsigned short, long double, bool, const float>>>>;
#define MEMBER(z, i, n) MT<K, n, i> m##i;
#define DECL(z, i, n) decl.push_back(ref_json(o, o.m##i));
#define INIT(z, i, n) static_cast<MT<K, n, i>>((i * 7 + n) % 120 + 1)
#define CINIT(z, i, n) std::to_string(static_cast<int>(static_cast<MT<K, n, i>>((i * 7 + n) % 120 + 1)))
#define STRUCT_(n)                                                                                                 \
  template <int K> struct A##n { BOOST_PP_REPEAT(n, MEMBER, n) };                                                  \
  template <int K> void do_a##n()                                                                                  \
  {                                                                                                                \
    A##n<K> o = {BOOST_PP_ENUM(n, INIT, n)};                                                                       \
    std::vector<std::string> decl;                                                                                 \
    BOOST_PP_REPEAT(n, DECL, n)                                                                                    \
    record("A" #n "<" + std::to_string(K) + ">", o, decl);                                                         \
    constexpr auto t = vir::to_tuple(A##n<K>{BOOST_PP_ENUM(n, INIT, n)});                                          \
    tr::Out out;                                                                                                   \
    out.str("op", "constant").str("name", "A" #n "<" + std::to_string(K) + ">").raw("decl", join({BOOST_PP_ENUM(n, CINIT, n)}))      \
      .raw("v", values(t));                                                                                        \
    out.emit("constant evaluation of to_tuple(A" #n ")");                                                          \
  }
#define STRUCT(n) STRUCT_(n)
#define ALL(X) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) X(20) X(21) X(22) \
  X(23) X(24) X(25) X(26) X(27) X(28) X(29) X(30) X(31) X(32) X(33) X(34) X(35) X(36) X(37) X(38) X(39) X(40) X(41) X(42) X(43) X(44) X(45) \
  X(46) X(47) X(48) X(49) X(50)
ALL(STRUCT)

// ------------------------------------------------------------ other shapes
#if LO == 1
struct E {}; struct E2 {}; struct E3 {};
struct D1 : E { int m0; };
struct D2 : E, E2 { int m0; float m1; };
struct D3 : E, E2, E3 { int m0; short m1; double m2; };
struct Bs { int m0; short m1; };
struct B3 { int m0; short m1; double m2; };
struct DB : Bs {};
struct DB3 : B3 {};
struct DBE : Bs, E {};
struct DEB : E, Bs {};
struct DE2B : E, E2, B3 {};
struct Str { std::string m0; std::string m1; };
struct Arr { int m0[3]; float m1; };
struct Arr2 { char m0; double m1[2][3]; short m2[1]; };
struct Nst { Bs m0; Bs m1; int m2; };
struct NstArr { Arr m0; Bs m1[2]; };
struct BF { int a : 1; int b : 1; int c : 3; };
struct BF2 { unsigned char a : 1, b : 1, c : 1, d : 1, e : 1, f : 1, g : 1, h : 1; };
struct BF3 { unsigned char a : 1, b : 1, c : 1, d : 1, e : 1, f : 1, g : 1; };
struct BF9 { unsigned short a : 1, b : 1, c : 1, d : 1, e : 1, f : 1, g : 1, h : 1, i : 1; };
struct DI { int m0 = 3; float m1 = 4; };
struct Pt { int* m0; const void* m1; };
enum class En { a, b };
struct HE { En m0; En m1; bool m2; };
struct HA { std::array<int, 3> m0; std::tuple<int, int> m1; };
struct Rf { int& m0; int m1; };
struct HasEmpty { E m0; int m1; };
struct MoveOnly { std::unique_ptr<int> m0; int m1; };
struct FromInt { FromInt(int) {} int x; };
struct NoDefault { FromInt m0; int m1; };
struct al32 { alignas(32) char m0; alignas(16) char m1; char m2; };
union Un { int a; float b; };
struct HU { Un m0; int m1; };
struct NonAggregate { NonAggregate(int); int a; };
class Private { int a; int b; };
#define R2(S, ...) { S o = __VA_ARGS__; record(#S, o, {ref_json(o, o.m0), ref_json(o, o.m1)}); }
#define R1(S, ...) { S o = __VA_ARGS__; record(#S, o, {ref_json(o, o.m0)}); }
#define R3(S, ...) { S o = __VA_ARGS__; record(#S, o, {ref_json(o, o.m0), ref_json(o, o.m1), ref_json(o, o.m2)}); }
#define N2(S, ...) { S o = __VA_ARGS__; record<false>(#S, o, {ref_json(o, o.m0), ref_json(o, o.m1)}); }
#define N3(S, ...) { S o = __VA_ARGS__; record<false>(#S, o, {ref_json(o, o.m0), ref_json(o, o.m1), ref_json(o, o.m2)}); }
template <typename Tp>
  void tuple_like(const std::string& name, Tp o)
  {
    std::vector<std::string> decl;
    [&]<std::size_t... I>(std::index_sequence<I...>) { (decl.push_back(ref_json(o, std::get<I>(o))), ...); }(std::make_index_sequence<std::tuple_size_v<Tp>>());
    record(name, o, decl);
  }
void shapes()
{
  size_only<E>("E", 0);
  size_only<BF>("BF", 3); size_only<BF2>("BF2", 8); size_only<BF3>("BF3", 7); size_only<BF9>("BF9", 9);
  size_only<Rf>("Rf", 2);
  R1(D1, {{}, 5}) R2(D2, {{}, {}, 5, 7.f}) R3(D3, {{}, {}, {}, 5, 6, 8.})
  R2(DB, {{5, 7}}) R2(DBE, {{5, 7}, {}}) R2(DEB, {{}, {6, 9}}) R3(DB3, {{1, 2, 3}}) R3(DE2B, {{}, {}, {1, 2, 3}})
  R2(Bs, {3, 4}) R2(Str, {"abc", "xy"}) N2(Arr, {{1, 2, 3}, 4}) N3(Arr2, {'a', {{1, 2, 3}, {4, 5, 6}}, {7}})
  R3(Nst, {{1, 2}, {3, 4}, 5}) N2(NstArr, {{{1, 2, 3}, 4}, {{5, 6}, {7, 8}}}) R2(DI, {8, 9}) R2(Pt, {nullptr, nullptr}) R3(HE, {En::b, En::a, true})
  R2(HA, {{1, 2, 3}, {4, 5}}) R3(al32, {'a', 'b', 'c'}) R2(HU, {{3}, 4})
  tuple_like("tuple<int>", std::tuple<int>(3));
  tuple_like("tuple<int,char,double>", std::tuple<int, char, double>(3, 'a', 6.));
  tuple_like("tuple<const int,short>", std::tuple<const int, short>(3, 9));
  tuple_like("pair<char,double>", std::pair<char, double>('c', 6.));
  tuple_like("array<short,1>", std::array<short, 1>{5});
  tuple_like("array<short,5>", std::array<short, 5>{5, 4, 3, 2, 1});
  tuple_like("tuple<tuple<int,short>,pair<int,char>>", std::tuple<std::tuple<int, short>, std::pair<int, char>>({3, 4}, {5, 'c'}));
  { int o[3] = {1, 2, 3}; record<false>("int[3]", o, {ref_json(o, o[0]), ref_json(o, o[1]), ref_json(o, o[2])}); }
  { double o[1] = {1}; record<false>("double[1]", o, {ref_json(o, o[0])}); }
  concept_only<int>("int", false);
  concept_only<float*>("float*", false);
  concept_only<std::string>("string", false);
  concept_only<std::complex<float>>("complex", false);
  concept_only<NonAggregate>("NonAggregate", false);
  concept_only<Private>("Private", false);
  concept_only<std::unique_ptr<int>>("unique_ptr", false);
  concept_only<Bs>("Bs", true);
  concept_only<const Bs&>("const Bs&", true);
  concept_only<std::tuple<>>("tuple<>", true);
  concept_only<std::tuple<int&>>("tuple<int&>", true);
  concept_only<std::array<int, 0>>("array<int,0>", true);
  size_only<std::tuple<>>("tuple<>", 0);
  size_only<std::array<int, 0>>("array<int,0>", 0);
  size_only<HasEmpty>("HasEmpty", 2);
  size_only<MoveOnly>("MoveOnly", 2);
  size_only<NoDefault>("NoDefault", 2);
}
#endif

int main()
{
#define RUN_(n) if constexpr (n >= LO && n <= HI) do_a##n<KIND>();
#define RUN(n) RUN_(n)
  ALL(RUN)
#if LO == 1
  shapes();
#endif
}
