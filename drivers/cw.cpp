// Recording of vir/constexpr_wrapper.h; see spec/ConstTrace.tla.
//   -DSET=0..3 (operators), 4 (class types, calls, subscripts, other), 5 (literals), 6 (rejected literals)
#include "trace.h"
#ifndef REPO
#define REPO "/repo"
#endif
#include <vir/constexpr_wrapper.h>
#include <array>
#include <string>
#include <type_traits>

template <typename T>
  std::string tname()
  {
    std::string s = __PRETTY_FUNCTION__;
    const auto p = s.find("T = ") + 4;
    return s.substr(p, (s.find(';', p) != s.npos ? s.find(';', p) : s.rfind(']')) - p);
  }
template <typename T>
  std::string constant(T x)
  { return "{\"t\":\"" + tname<T>() + "\",\"v\":" + tr::limbs(x) + "}"; }

template <typename T> struct wrapper { static constexpr bool is = false; };
template <auto X, typename T> struct wrapper<vir::constexpr_wrapper<X, T>>
{
  using W = vir::constexpr_wrapper<X, T>;
  static constexpr bool is = std::is_same_v<T, std::remove_cvref_t<decltype(X)>> and std::is_same_v<typename W::value_type, T>
                               and std::is_same_v<typename W::type, W> and std::is_same_v<std::remove_cvref_t<decltype(W::value)>, T>
                               and std::is_empty_v<W>;
};
// the constant inside of a wrapper or the value itself
template <typename R>
  auto unwrap(const R& r)
  {
    if constexpr (wrapper<R>::is)
      return R::value;
    else
      return r;
  }
template <auto> struct as_constant {};

// ------------------------------------------------------------------ operators on integers
template <auto A, auto B>
  void binary()
  {
    using WA = vir::constexpr_wrapper<A>;
    using WB = vir::constexpr_wrapper<B>;
    using IA = std::integral_constant<std::remove_cvref_t<decltype(A)>, A>;
    using IB = std::integral_constant<std::remove_cvref_t<decltype(B)>, B>;
    constexpr WA wa{};
    constexpr WB wb{};
    const auto emit = [](const char* name, const char* how, bool is_const, auto q, const auto& r) {
      tr::Out o;
      o.str("op", "binary").str("name", name).num("const", is_const).num("wrapped", wrapper<std::remove_cvref_t<decltype(r)>>::is)
        .raw("a", constant(A)).raw("b", constant(B)).raw("q", tr::limbs(q)).raw("out", constant(unwrap(r)));
      o.emit(std::string("constexpr_wrapper ") + how + " " + name);
    };
    auto a = A;
    auto b = B;
    // Q: quotient, evaluated for / and % only
#define DO_(OP, NAME, Q)                                                                                     \
    if constexpr (requires { typename as_constant<(A OP B)>; })                                              \
      {                                                                                                      \
        emit(NAME, "wrapper op wrapper", true, Q, wa OP wb);                                                 \
        emit(NAME, "wrapper op integral_constant", true, Q, wa OP IB());                                     \
        emit(NAME, "integral_constant op wrapper", true, Q, IA() OP wb);                                     \
        emit(NAME, "wrapper op value", false, Q, wa OP b);                                                   \
        emit(NAME, "value op wrapper", false, Q, a OP wb);                                                   \
      }
#define DO(OP) DO_(OP, #OP, 0)
    DO(+) DO(-) DO(*) DO(&) DO(|) DO(^) DO(==) DO(!=) DO(<) DO(<=) DO(>) DO(>=) DO(&&) DO(||)
    if constexpr (requires { typename as_constant<(A / B)>; typename as_constant<(A % B)>; })
      {
        constexpr auto q = A / B;
        DO_(/, "/", q) DO_(%, "%", q)
      }
    if constexpr (B >= 0 and B < 64)
      {
        DO(<<)
        DO(>>)
      }
    emit(",", "wrapper op wrapper", true, 0, (wa , wb));
  }
template <auto A>
  void unary()
  {
    constexpr vir::constexpr_wrapper<A> wa{};
    const auto emit = [](const char* name, const auto& r) {
      tr::Out o;
      o.str("op", "unary").str("name", name).num("wrapped", wrapper<std::remove_cvref_t<decltype(r)>>::is).raw("a", constant(A)).raw("out", constant(unwrap(r)));
      o.emit(std::string("constexpr_wrapper unary ") + name);
    };
#define DU(OP) if constexpr (requires { typename as_constant<OP A>; }) emit(#OP, OP wa);
    DU(+) DU(-) DU(~) DU(!)
    tr::Out o;
    using T = std::remove_cvref_t<decltype(A)>;
    const T v = wa;
    o.str("op", "value").raw("ref", "[" + constant(A) + "," + constant(A) + "," + constant(A) + "," + constant(A) + "]")
      .raw("out", "[" + constant(v) + "," + constant(wa.value) + "," + constant(wa()) + "," + constant(*wa.operator->()) + "]");
    o.emit("constexpr_wrapper value of " + tname<T>());
  }
template <auto A, auto... Bs> void row() { (binary<A, Bs>(), ...); unary<A>(); }
template <auto... As> void square() { (row<As, As...>(), ...); }

// ------------------------------------------------------------------ class type whose operators can be observed
struct Sym
{
  int v;
#define B(N, OP) constexpr Sym operator OP(Sym b) const { return {N * 10000 + v * 100 + b.v}; }
  B(1, +) B(2, -) B(3, *) B(4, /) B(5, %) B(6, &) B(7, |) B(8, ^) B(9, &&) B(10, ||) constexpr Sym operator,(Sym b) const { return {11 * 10000 + v * 100 + b.v}; }
  B(12, <<) B(13, >>) B(14, ==) B(15, !=) B(16, <) B(17, <=) B(18, >) B(19, >=) B(20, ->*)
  B(22, +=) B(23, -=) B(24, *=) B(25, /=) B(26, %=) B(27, &=) B(28, |=) B(29, ^=) B(30, <<=) B(31, >>=)
#undef B
#define U(N, OP) constexpr Sym operator OP() const { return {1000000 + N * 100 + v}; }
  U(1, +) U(2, -) U(3, ~) U(4, !) U(5, *) U(6, ++) U(8, --)
#undef U
  constexpr Sym operator++(int) const { return {1000000 + 7 * 100 + v}; }
  constexpr Sym operator--(int) const { return {1000000 + 9 * 100 + v}; }
};
template <int A, int B>
  void sym()
  {
    constexpr vir::constexpr_wrapper<Sym{A}> a{};
    constexpr vir::constexpr_wrapper<Sym{B}> b{};
    const auto emit = [](const char* name, const char* how, bool is_const, const auto& r) {
      tr::Out o;
      o.str("op", "sym binary").str("name", name).num("const", is_const).num("wrapped", wrapper<std::remove_cvref_t<decltype(r)>>::is)
        .num("a", A).num("b", B).num("out", unwrap(r).v);
      o.emit(std::string("constexpr_wrapper<Sym> ") + how + " " + name);
    };
    struct Derived : vir::constexpr_wrapper<Sym{A}> {};
#define DO1(OP) emit(#OP, "wrapper op wrapper", true, (a OP b)); emit(#OP, "derived op wrapper", true, (Derived() OP b));
    DO1(+) DO1(-) DO1(*) DO1(/) DO1(%) DO1(&) DO1(|) DO1(^) DO1(&&) DO1(||)
    emit(",", "wrapper op wrapper", true, (a , b));
    DO1(<<) DO1(>>) DO1(==) DO1(!=) DO1(<) DO1(<=) DO1(>) DO1(>=) DO1(->*)
    DO1(+=) DO1(-=) DO1(*=) DO1(/=) DO1(%=) DO1(&=) DO1(|=) DO1(^=) DO1(<<=) DO1(>>=)
    const auto un = [](const char* name, const auto& r) {
      tr::Out o;
      o.str("op", "sym unary").str("name", name).num("wrapped", wrapper<std::remove_cvref_t<decltype(r)>>::is).num("a", A).num("out", unwrap(r).v);
      o.emit(std::string("constexpr_wrapper<Sym> unary ") + name);
    };
    un("+", +a); un("-", -a); un("~", ~a); un("!", !a); un("*", *a); un("++", ++a); un("post++", a++); un("--", --a); un("post--", a--);
  }

// ------------------------------------------------------------------ calls, subscripts, the rest
template <int N>
  struct Fn
  {
    int id = N;
    constexpr int operator()() const { return N * 1000; }
    constexpr int operator()(int a) const { return N * 1000 + a; }
    constexpr int operator()(int a, int b) const { return N * 1000 + a * 10 + b; }
    constexpr int operator()(int a, int b, int c) const { return N * 1000 + a * 100 + b * 10 + c; }
  };
constexpr int fptr(int a, int b, int c) { return 7000 + a * 100 + b * 10 + c; }
struct Table
{
  int x[6] = {2, 7, 1, 8, 28, 18};
  constexpr int operator[](int i) const { return x[i]; }
#if __cpp_multidimensional_subscript
  constexpr int operator[](int i, int j) const { return x[i * 2 + j]; }
  constexpr int operator[]() const { return x[4]; }
#endif
};
struct Ptr
{
  Sym s{42};
  constexpr const Sym* operator->() const { return &s; }
};
struct Plain { int a = 17; constexpr int twice() const { return 2 * a; } };
void truth(const char* what, bool out, bool expected)
{
  tr::Out o;
  o.str("op", "truth").str("name", what).num("out", out).num("expected", expected);
  o.emit(what);
}
#if SET == 4
void classes()
{
  sym<3, 7>(); sym<7, 3>(); sym<1, 1>(); sym<98, 2>();
  const auto call = [](int fn, bool is_const, std::vector<int> args, const auto& r) {
    tr::Out o;
    o.str("op", "call").num("fn", fn).num("const", is_const).num("wrapped", wrapper<std::remove_cvref_t<decltype(r)>>::is)
      .raw("args", tr::list(args)).num("out", unwrap(r));
    o.emit("constexpr_wrapper call");
  };
  constexpr vir::constexpr_wrapper<Fn<3>{}> f{};
  constexpr vir::constexpr_wrapper<&fptr> p{};
  constexpr vir::constexpr_wrapper<[](int a, int b) { return 9000 + a * 10 + b; }> lam{};
  auto c1 = vir::cw<1>; auto c2 = vir::cw<2>; auto c5 = vir::cw<5>;
  int v2 = 2, v8 = 8;
  call(3, true, {}, f());
  call(3, true, {1}, f(c1));
  call(3, true, {2, 5}, f(c2, c5));
  call(3, true, {5, 2, 1}, f(c5, c2, c1));
  call(3, true, {5, 2, 1}, f(c5, std::integral_constant<int, 2>(), c1));
  call(3, false, {8}, f(v8));
  call(3, false, {2, 8}, f(v2, v8));
  call(3, false, {5, 8}, f(c5, v8));
  call(3, false, {8, 5}, f(v8, c5));
  call(3, false, {1, 2, 8}, f(c1, c2, v8));
  call(3, false, {8, 1, 2}, f(v8, c1, v2));
  call(7, true, {5, 2, 1}, p(c5, c2, c1));
  call(7, false, {5, 8, 1}, p(c5, v8, c1));
  call(9, true, {2, 1}, lam(c2, c1));
  call(9, false, {2, 8}, lam(v2, v8));

  const auto sub = [](const auto& arr, int i, bool is_const, const auto& r) {
    tr::Out o;
    o.str("op", "subscript").num("i", i).num("const", is_const).num("wrapped", wrapper<std::remove_cvref_t<decltype(r)>>::is)
      .raw("arr", tr::list(arr)).num("out", unwrap(r));
    o.emit("constexpr_wrapper subscript");
  };
  // (no pointers: g++ 13 gives constexpr_wrapper<*p> and constexpr_wrapper<p[i]> a wrong default argument)
  constexpr vir::constexpr_wrapper<Table{}> cl{};
  constexpr vir::constexpr_wrapper<std::array<int, 3>{4, 5, 6}> ar{};
  sub(Table().x, 2, true, cl[c2]); sub(Table().x, 5, true, cl[c5]); sub(Table().x, 2, false, cl[v2]);
  sub(std::array<int, 3>{4, 5, 6}, 2, true, ar[c2]); sub(std::array<int, 3>{4, 5, 6}, 2, false, ar[v2]);
#if __cpp_multidimensional_subscript
  sub(Table().x, 5, true, cl[c2, c1]); sub(Table().x, 4, true, cl[c1, c2]); sub(Table().x, 5, false, cl[v2, c1]); sub(Table().x, 4, false, cl[c1, v2]);
  sub(Table().x, 4, true, cl[]);
#endif
  // pointers, -> and &
  const auto value = [](const char* what, auto out, auto ref) {
    tr::Out o;
    o.str("op", "value").raw("ref", constant(ref)).raw("out", constant(out));
    o.emit(what);
  };
  value("-> of a class with operator->", vir::cw<Ptr{}>->v, 42);
  value("-> of a class without operator->", vir::cw<Plain{}>->a, 17);
  value("-> member function", vir::cw<Plain{}>->twice(), 34);
  value("& of a class", (&vir::cw<Plain{}>).value->a, 17);
  value("() of a value that is not callable", vir::cw<7>(), 7);
  value("double + double", decltype(vir::cw<1.5> + vir::cw<0.25>)::value, 1.75);
  value("double - int", decltype(vir::cw<1.5> - vir::cw<1>)::value, .5);
  value("int / double", decltype(vir::cw<1> / vir::cw<4.>)::value, .25);
  value("-double", decltype(-vir::cw<0.>)::value, -0.);
  value("float * double", decltype(vir::cw<1.5f> * vir::cw<3.>)::value, 4.5);
  value("float < int", decltype(vir::cw<1.5f> < vir::cw<2>)::value, true);
  value("!double", decltype(!vir::cw<0.5>)::value, false);
  // concepts
  using W = vir::constexpr_wrapper<5>;
  truth("constexpr_value of a wrapper", vir::constexpr_value<W>, true);
  truth("constexpr_value of integral_constant", vir::constexpr_value<std::integral_constant<long, 5>>, true);
  truth("constexpr_value of true_type", vir::constexpr_value<std::true_type>, true);
  truth("constexpr_value of int", vir::constexpr_value<int>, false);
  truth("constexpr_value of a class without value", vir::constexpr_value<Plain>, false);
  truth("constexpr_value<wrapper of int, int>", vir::constexpr_value<W, int>, true);
  truth("constexpr_value<wrapper of int, double>", vir::constexpr_value<W, double>, true);
  truth("constexpr_value<wrapper of int, const char*>", vir::constexpr_value<W, const char*>, false);
  truth("constexpr_value<wrapper of int, Sym>", vir::constexpr_value<W, Sym>, false);
  truth("type of cw", std::is_same_v<decltype(vir::cw<5>), const vir::constexpr_wrapper<5, int>>, true);
  truth("default type argument", std::is_same_v<vir::constexpr_wrapper<'c'>, vir::constexpr_wrapper<'c', char>>, true);
}

#endif

// ------------------------------------------------------------------ literals
struct Text { char c[160] = {}; int n = 0; constexpr void add(char x) { c[n++] = x; } };
// sep: distance of the digit separators, 0: none;  lead: leading zeros
consteval Text spell(unsigned long long v, int base, bool upper, bool uprefix, int sep, int lead)
{
  Text digits;
  do
    {
      const int d = v % base;
      digits.add(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10);
      v /= base;
    }
  while (v);
  for (int i = 0; i < lead; ++i)
    digits.add('0');
  Text r;
  if (base != 10)
    r.add('0');
  if (base == 16)
    r.add(uprefix ? 'X' : 'x');
  if (base == 2)
    r.add(uprefix ? 'B' : 'b');
  for (int i = digits.n - 1; i >= 0; --i)
    {
      r.add(digits.c[i]);
      if (sep and i and i % sep == 0)
        r.add('\'');
    }
  return r;
}
template <typename R>
  void literal_record(const Text& t, R r)
  {
    tr::Out o;
    std::string s = "[";
    for (int i = 0; i < t.n; ++i)
      s += (i ? ",\"" : "\"") + std::string(1, t.c[i]) + "\"";
    o.str("op", "literal").raw("s", s + "]").num("wrapped", wrapper<std::remove_cvref_t<R>>::is).raw("out", constant(R::value));
    o.emit("literal " + std::string(t.c, t.n) + "_cw");
  }
template <unsigned long long V, int Base, bool Upper, bool UPrefix, int Sep, int Lead>
  void literal()
  {
    static constexpr Text t = spell(V, Base, Upper, UPrefix, Sep, Lead);
    [&]<std::size_t... I>(std::index_sequence<I...>) {
      literal_record(t, vir::literals::operator""_cw<t.c[I]...>());
    }(std::make_index_sequence<t.n>());
  }
template <unsigned long long V>
  void spellings()
  {
    constexpr unsigned h = (V ^ (V >> 17) ^ (V >> 41)) * 2654435761u >> 7;
    literal<V, 10, false, false, 0, 0>();
    literal<V, 10, false, false, 1 + h % 4, 0>();
    literal<V, 16, bool(h & 1), bool(h & 2), 0, 0>();
    literal<V, 16, not bool(h & 1), not bool(h & 2), 1 + h % 5, h % 3>();
    literal<V, 8, false, false, h % 3, h % 2>();
    literal<V, 2, false, bool(h & 4), h % 6, h % 2>();
  }
#ifndef ROUND
#define ROUND 1
#endif
consteval unsigned long long draw(int i)
{
  unsigned long long x = 0x9e3779b97f4a7c15ull * (i + 1 + 1000 * ROUND);
  x ^= x >> 31; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 29; x *= 0x94d049bb133111ebull; x ^= x >> 32;
  return x >> (x % 63);
}
#if SET == 5
void literals()
{
  using namespace vir::literals;
  literal_record(Text{"5", 1}, 5_cw);
  literal_record(Text{"0x7F", 4}, 0x7F_cw);
  literal_record(Text{"0xff'FF", 7}, 0xff'FF_cw);
  literal_record(Text{"0b1'0000000", 11}, 0b1'0000000_cw);
  literal_record(Text{"0777", 4}, 0777_cw);
  literal_record(Text{"1'000'000", 9}, 1'000'000_cw);
  literal_record(Text{"0", 1}, 0_cw);
  [&]<std::size_t... I>(std::index_sequence<I...>) { (spellings<I>(), ...); }(std::make_index_sequence<18>());
  spellings<63>(); spellings<64>(); spellings<100>();
  spellings<126>(); spellings<127>(); spellings<128>(); spellings<129>(); spellings<255>(); spellings<256>();
  spellings<32766>(); spellings<32767>(); spellings<32768>(); spellings<32769>(); spellings<65535>(); spellings<65536>();
  spellings<0x7ffffffeull>(); spellings<0x7fffffffull>(); spellings<0x80000000ull>(); spellings<0x80000001ull>(); spellings<0xffffffffull>(); spellings<0x100000000ull>();
  spellings<0x7ffffffffffffffeull>(); spellings<0x7fffffffffffffffull>(); spellings<0x8000000000000000ull>(); spellings<0x8000000000000001ull>();
  spellings<0xfffffffffffffffeull>(); spellings<0xffffffffffffffffull>(); spellings<0xfedcba9876543210ull>(); spellings<0x0123456789abcdefull>();
  [&]<std::size_t... I>(std::index_sequence<I...>) { (spellings<draw(I)>(), ...); }(std::make_index_sequence<24>());
}

#endif

// literals that may have to be rejected
void compile_literals()
{
  const char* lits[] = {"18446744073709551615", "18446744073709551616", "18446744073709551620", "99999999999999999999", "184467440737095516150",
                        "0xffffffffffffffff", "0x10000000000000000", "0x1'0000'0000'0000'0001",
                        "01777777777777777777777", "02000000000000000000000", "03777777777777777777777", "0x0", "0b0", "00", "0'0",
                        "0b1111111111111111111111111111111111111111111111111111111111111111",
                        "0b10000000000000000000000000000000000000000000000000000000000000000", "36893488147419103232", "1.5", "1e3", "0x1p3"};
  char dir[] = "/tmp/vpcwXXXXXX";
  if (not mkdtemp(dir))
    std::_Exit(70);
  const std::string base = std::string(dir) + "/l";
  for (const char* lit : lits)
    {
      std::FILE* f = std::fopen((base + ".cpp").c_str(), "w");
      std::fprintf(f, "#include <vir/constexpr_wrapper.h>\nusing namespace vir::literals;\nauto x = %s_cw;\n", lit);
      std::fclose(f);
      const int rc = std::system(("g++ -std=gnu++23 -fsyntax-only -I" REPO " " + base + ".cpp > /dev/null 2>&1").c_str());
      std::string s = "[";
      for (const char* p = lit; *p; ++p)
        s += (p != lit ? ",\"" : "\"") + std::string(1, *p) + "\"";
      tr::Out o;
      o.str("op", "compile literal").raw("s", s + "]").num("compiled", rc == 0);
      o.emit(std::string("compile ") + lit + "_cw");
    }
  (void) !std::system(("rm -rf " + std::string(dir)).c_str());
}

int main()
{
#if SET == 0
  square<0, 1, -1, 7, -9, 100u, 3000000000u, 'a', short(-3), true>();
#elif SET == 1
  square<(signed char)(-128), (unsigned char)(250), (unsigned short)(65535), short(-32768), 2147483647, -2147483647 - 1, 0u, 4294967295u, false, 5>();
#elif SET == 2
  square<3l, -5ll, 9ul, 18446744073709551615ull, 9223372036854775807l, -9223372036854775807ll - 1, 12, 40000u, short(31), 4294967296l>();
#elif SET == 3
  square<1000000007, 65521u, -77777l, 123456789012345ll, 6ull, (signed char)(3), 33l, 17, true, 1234567890123ul>();
#elif SET == 4
  classes();
#elif SET == 5
  literals();
#else
  compile_literals();
#endif
}
