// simdize: loads, stores, subscripts, component access, broadcasts, conversions, operators.
// Objects lie against an inaccessible page at either end.
// -DTYPE=element type -DSET=0 (homogeneous templates) | 1 (mixed, tuples, arrays) | 2 (nested, broadcast, conversion) | 3 (operators)
//  | 4 (constant evaluation)
#include "move_common.h"
#include <vir/simdize.h>
#include <tuple>

using T = TYPE;

template <typename U> struct S1 { U a; };
template <typename U> struct P2 { U a, b; };
template <typename U> struct P3 { U a, b, c; };
template <typename U> struct P4 { U a, b, c, d; };
template <typename U> struct P5 { U a, b, c, d, e; };
template <typename U> struct P6 { U a, b, c, d, e, f; };
template <typename U> struct P7 { U a, b, c, d, e, f, g; };
template <typename U> struct P8 { U a, b, c, d, e, f, g, h; };
template <typename A, typename B> struct Q2 { A a; B b; };
template <typename A, typename B, typename C> struct Q3 { A a; B b; C c; };
template <typename U, int K> struct Ar { U x[K]; };
struct Mix { T a; double b; char c; };
struct Hom2 { T a, b; };
struct Hom3 { T a, b, c; };
struct Line { P2<T> p, q; };
struct Nest { T x; P3<T> p; short y; };
template <typename U> struct Inner { P2<U> p; };
template <typename U> struct Arrs { U x[2]; U y; };

// ---- leaves of an object, components of a simdized object, in declaration order (written out by hand)
template <typename U, typename F> void leaves(const S1<U>& s, F f) { f(s.a); }
template <typename U, typename F> void leaves(const P2<U>& s, F f) { f(s.a); f(s.b); }
template <typename U, typename F> void leaves(const P3<U>& s, F f) { f(s.a); f(s.b); f(s.c); }
template <typename U, typename F> void leaves(const P4<U>& s, F f) { f(s.a); f(s.b); f(s.c); f(s.d); }
template <typename U, typename F> void leaves(const P5<U>& s, F f) { f(s.a); f(s.b); f(s.c); f(s.d); f(s.e); }
template <typename U, typename F> void leaves(const P6<U>& s, F f) { f(s.a); f(s.b); f(s.c); f(s.d); f(s.e); f(s.f); }
template <typename U, typename F> void leaves(const P7<U>& s, F f) { f(s.a); f(s.b); f(s.c); f(s.d); f(s.e); f(s.f); f(s.g); }
template <typename U, typename F> void leaves(const P8<U>& s, F f) { f(s.a); f(s.b); f(s.c); f(s.d); f(s.e); f(s.f); f(s.g); f(s.h); }
template <typename A, typename B, typename F> void leaves(const Q2<A, B>& s, F f) { f(s.a); f(s.b); }
template <typename A, typename B, typename C, typename F> void leaves(const Q3<A, B, C>& s, F f) { f(s.a); f(s.b); f(s.c); }
template <typename U, int K, typename F> void leaves(const Ar<U, K>& s, F f) { for (auto& x : s.x) f(x); }
template <typename F> void leaves(const Mix& s, F f) { f(s.a); f(s.b); f(s.c); }
template <typename F> void leaves(const Hom2& s, F f) { f(s.a); f(s.b); }
template <typename F> void leaves(const Hom3& s, F f) { f(s.a); f(s.b); f(s.c); }
template <typename U, std::size_t K, typename F> void leaves(const std::array<U, K>& s, F f) { for (auto& x : s) f(x); }
template <typename... U, typename F> void leaves(const std::tuple<U...>& s, F f);
template <typename A, typename B, typename F> void leaves(const std::pair<A, B>& s, F f) { f(s.first); f(s.second); }
template <typename F> void leaves(const Line& s, F f) { f(s.p.a); f(s.p.b); f(s.q.a); f(s.q.b); }
template <typename F> void leaves(const Nest& s, F f) { f(s.x); f(s.p.a); f(s.p.b); f(s.p.c); f(s.y); }
template <typename U, typename F> void leaves(const Inner<U>& s, F f) { f(s.p.a); f(s.p.b); }
template <typename U, typename F> void leaves(const Arrs<U>& s, F f) { f(s.x[0]); f(s.x[1]); f(s.y); }
template <typename U, typename F>
  void leaf_or_object(const U& x, F f)
  {
    if constexpr (std::is_arithmetic_v<U> or stdx::is_simd_v<U>)
      f(x);
    else
      leaves(x, f);
  }
template <typename... U, typename F> void leaves(const std::tuple<U...>& s, F f)
{ std::apply([&](const auto&... x) { (leaf_or_object(x, f), ...); }, s); }

template <typename S>
  void randomize(S& s)
  { leaves(s, [](const auto& x) { const_cast<std::remove_cvref_t<decltype(x)>&>(x) = mv::random<std::remove_cvref_t<decltype(x)>>(); }); }
template <typename S>
  std::string object(const S& s)
  {
    std::vector<std::string> v;
    leaves(s, [&](const auto& x) { v.push_back(mv::raw(x)); });
    return mv::join(v);
  }

// components through get<I>, recursively
template <typename V, typename F>
  void comps(const V& v, F f)
  {
    if constexpr (stdx::is_simd_v<V>)
      f(v);
    else if constexpr (std::is_array_v<V>)
      for (const auto& x : v)
        comps(x, f);
    else if constexpr (not requires { std::tuple_size<V>::value; })
      leaves(v, f);
    else
      [&]<std::size_t... I>(std::index_sequence<I...>) {
        using vir::get;
        using std::get;
        (comps(get<I>(v), f), ...);
      }(std::make_index_sequence<std::tuple_size_v<V>>());
  }
template <typename V>
  std::vector<std::string> soa(const V& v)
  {
    std::vector<std::string> r;
    comps(v, [&](const auto& c) { r.push_back(mv::lanes(c)); });
    return r;
  }
// components through the members of the vectorized template
template <typename V>
  std::vector<std::string> soa_members(const V& v)
  {
    std::vector<std::string> r;
    leaves(v, [&](const auto& c) { r.push_back(mv::lanes(c)); });
    return r;
  }

tr::Arena arena(4);
constexpr unsigned char canary = 0xA7;

template <typename S, int N>
  S* place(bool at_end)
  {
    arena.fill(canary);
    S* p = reinterpret_cast<S*>(at_end ? arena.end() - sizeof(S) * N : arena.base);
    return p;
  }
template <typename S, int N>
  void fill(S* p)
  {
    for (int i = 0; i < N; ++i)
      randomize(p[i]);
  }
template <typename S, int N>
  std::vector<std::string> aos(const S* p)
  {
    std::vector<std::string> r;
    for (int i = 0; i < N; ++i)
      r.push_back(object(p[i]));
    return r;
  }

template <typename V, typename S> [[gnu::noinline]] V load_ctor(const S* p) { return V(p); }
template <typename V, typename S> [[gnu::noinline]] void load_copy(V& v, const S* p) { v.copy_from(p); }
template <typename V, typename S> [[gnu::noinline]] void store(const V& v, S* p) { v.copy_to(p); }

inline mv::Rec rec(const char* op) { mv::Rec r{op}; r.ty = r.sty = mv::type<T>(); return r; }

template <typename S, int N, bool Members = false>
  void mem(const char* name)
  {
    using V = vir::simdize<S, N>;
    static_assert(V::size == N);
    const std::string at = std::string(" ") + name + " x " + std::to_string(N);
    for (bool end : {false, true})
      {
        S* p = place<S, N>(end);
        fill<S, N>(p);
        auto r = rec("to_soa");
        r.in = aos<S, N>(p);
        r.fault = tr::guarded([&] { r.out = soa(load_ctor<V>(p)); });
        r.outside = arena.changed(canary, p, p + N);
        r.emit("simdize constructor" + at);
        if constexpr (Members)
          {
            r.fault = tr::guarded([&] { r.out = soa_members(load_ctor<V>(p)); });
            r.emit("simdize constructor, members" + at);
          }
        V v = load_ctor<V>(p);
        fill<S, N>(p);
        r.in = aos<S, N>(p);
        r.fault = tr::guarded([&] {
          load_copy(v, p);
          r.out = soa(v);
        });
        r.emit("simdize copy_from" + at);
        // store
        r = rec("to_aos");
        r.in = soa(v);
        place<S, N>(end);
        r.fault = tr::guarded([&] { store(v, p); });
        r.out = aos<S, N>(p);
        r.outside = arena.changed(canary, p, p + N);
        r.emit("simdize copy_to" + at);
        // subscript
        for (int i = 0; i < N; i += (N > 8 ? 5 : 1))
          {
            r = rec("object");
            r.in = soa(v);
            r.p = tr::list(std::vector<long>{i});
            r.fault = tr::guarded([&] { const S s = v[i]; r.out = {object(s)}; });
            r.emit("simdize operator[]" + at);
          }
        // load from and store to the middle of an array
        S* q = place<S, N + 2>(end);
        fill<S, N + 2>(q);
        r = rec("to_soa");
        r.in = aos<S, N>(q + 1);
        r.fault = tr::guarded([&] { v = load_ctor<V>(q + 1); r.out = soa(v); });
        r.emit("simdize constructor (middle)" + at);
        r = rec("to_aos");
        fill<S, N + 2>(q);
        const std::string b0 = object(q[0]), b1 = object(q[N + 1]);
        r.in = soa(v);
        r.fault = tr::guarded([&] { store(v, q + 1); });
        r.out = aos<S, N>(q + 1);
        r.outside = (b0 != object(q[0])) + (b1 != object(q[N + 1]));
        r.emit("simdize copy_to (middle)" + at);
      }
  }

template <typename S, int N>
  void broadcast(const char* name)
  {
    using V = vir::simdize<S, N>;
    S s;
    randomize(s);
    auto r = rec("broadcast");
    r.in = {object(s)};
    r.p = tr::list(std::vector<long>{N});
    r.fault = tr::guarded([&] { const V v(s); r.out = soa(v); });
    r.emit(std::string("simdize broadcast ") + name + " x " + std::to_string(N));
    // and back
    const V v(s);
    for (int i = 0; i < N; i += (N > 8 ? 7 : 1))
      {
        r = rec("object");
        r.in = soa(v);
        r.p = tr::list(std::vector<long>{i});
        r.fault = tr::guarded([&] { const S t = v[i]; r.out = {object(t)}; });
        r.emit(std::string("simdize operator[] of broadcast ") + name + " x " + std::to_string(N));
      }
  }

template <typename S, int... N> void mem_all(const char* name) { (mem<S, N>(name), ...); }
template <typename S, int... N> void mem_members(const char* name) { (mem<S, N, true>(name), ...); }
template <typename S, int... N> void broadcast_all(const char* name) { (broadcast<S, N>(name), ...); }

// ------------------------------------------------------------------ components and conversions
template <int N> using D = stdx::simd<T, stdx::simd_abi::deduce_t<T, N>>;
template <typename U, int N> using DU = stdx::simd<U, stdx::simd_abi::deduce_t<U, N>>;

template <int N>
  void conversions()
  {
    const std::string at = " x " + std::to_string(N);
    const D<N> a = mv::make<D<N>>(), b = mv::make<D<N>>(), c = mv::make<D<N>>();
    const std::vector<std::string> abc = {mv::lanes(a), mv::lanes(b), mv::lanes(c)};
    auto same = [&](const std::string& what, auto f) {
      auto r = rec("same");
      r.in = abc;
      r.fault = tr::guarded([&] { r.out = f(); });
      r.emit("simdize " + what + at);
    };
    using V = vir::simdize<P3<T>, N>;
    using B = P3<D<N>>;
    same("P3 from components", [&] { return soa(V{a, b, c}); });
    same("P3 from base", [&] { const B base{a, b, c}; return soa(V(base)); });
    same("P3 to base", [&] { const V v{a, b, c}; const B base = v; return soa_members(base); });
    same("P3 get", [&] {
      V v{a, a, a};
      get<1>(v) = b;
      get<2>(v) = c;
      return soa_members(v);
    });
    same("P3 structured binding", [&] {
      V v{c, c, c};
      auto& [x, y, z] = v;
      x = a;
      y = b;
      return soa(v);
    });
    same("P3 member access", [&] {
      V v{a, a, a};
      v.b = b;
      v.c = c;
      const V w = v;
      return soa(w);
    });
    using W = vir::simdize<Hom3, N>;
    same("Hom3 from components", [&] { return soa(W(a, b, c)); });
    same("Hom3 from tuple", [&] { return soa(W(std::tuple<D<N>, D<N>, D<N>>(a, b, c))); });
    same("Hom3 to aggregate", [&] { const W w(a, b, c); const B base = static_cast<B>(w); return soa_members(base); });
    same("Hom3 from aggregate", [&] { const B base{a, b, c}; return soa(W(base)); });
    same("Hom3 as_tuple", [&] {
      W w(a, a, a);
      std::get<1>(w.as_tuple()) = b;
      get<2>(w) = c;
      return soa(w);
    });
    same("Hom3 structured binding", [&] {
      const W w(a, b, c);
      const auto& [x, y, z] = w;
      return std::vector<std::string>{mv::lanes(x), mv::lanes(y), mv::lanes(z)};
    });
    using X = vir::simdize<std::tuple<T, T, T>, N>;
    same("tuple from components", [&] { return soa(X(a, b, c)); });
    same("tuple to base", [&] { const X x(a, b, c); const std::tuple<D<N>, D<N>, D<N>> t = x; return soa(t); });
    // a scalar member is broadcast
    {
      const T t = mv::random<T>();
      auto r = rec("same");
      r.in = {abc[0], mv::lanes(D<N>(t)), abc[2]};
      r.fault = tr::guarded([&] { r.out = soa(V{a, t, c}); });
      r.emit("simdize P3 partially broadcast" + at);
    }
    // nested objects: component access and subscript
    {
      const D<N> d = mv::make<D<N>>();
      using VL = vir::simdize<Line, N>;
      using V2 = vir::simdize<P2<T>, N>;
      auto r = rec("same");
      r.in = {abc[0], abc[1], abc[2], mv::lanes(d)};
      r.fault = tr::guarded([&] { r.out = soa(VL(V2{a, b}, V2{c, d})); });
      r.emit("simdize Line from components" + at);
      const VL v(V2{a, b}, V2{c, d});
      for (int i = 0; i < N; ++i)
        {
          r = rec("object");
          r.in = soa(v);
          r.p = tr::list(std::vector<long>{i});
          r.fault = tr::guarded([&] { const Line s = v[i]; r.out = {object(s)}; });
          r.emit("simdize Line operator[]" + at);
        }
    }
  }

// ------------------------------------------------------------------ operators of the underlying template
template <typename U> struct Vec
{
  U x, y;
#define OP(op) friend constexpr Vec operator op(const Vec& a, const Vec& b) { return {static_cast<U>(a.x op b.x), static_cast<U>(a.y op b.y)}; }
  OP(+) OP(-) OP(*)
#undef OP
  friend constexpr auto operator==(const Vec& a, const Vec& b) { return a.x == b.x && a.y == b.y; }
  friend constexpr auto operator!=(const Vec& a, const Vec& b) { return a.x != b.x || a.y != b.y; }
  friend constexpr auto operator<(const Vec& a, const Vec& b) { return a.x < b.x; }
  friend constexpr auto operator<=(const Vec& a, const Vec& b) { return a.x <= b.x; }
  friend constexpr auto operator>(const Vec& a, const Vec& b) { return a.x > b.x; }
  friend constexpr auto operator>=(const Vec& a, const Vec& b) { return a.x >= b.x; }
};
template <typename U> struct IVec
{
  U x, y;
#define OP(op) friend constexpr IVec operator op(const IVec& a, const IVec& b) { return {static_cast<U>(a.x op b.x), static_cast<U>(a.y op b.y)}; }
  OP(/) OP(%) OP(&) OP(|) OP(^) OP(<<) OP(>>)
#undef OP
};
template <typename U, typename F> void leaves(const Vec<U>& s, F f) { f(s.x); f(s.y); }
template <typename U, typename F> void leaves(const IVec<U>& s, F f) { f(s.x); f(s.y); }

template <typename R>
  std::vector<std::string> result(const R& r)
  {
    if constexpr (stdx::is_simd_mask_v<R>)
      return {mv::lanes(r)};
    else
      return soa(r);
  }
// reference: one vector per component of the result of f on the objects
template <typename F, typename G>
  std::string table(int n, F f, G g)
  {
    std::vector<std::vector<std::string>> cols;
    for (int i = 0; i < n; ++i)
      {
        const auto r = f(i);
        std::vector<std::string> row;
        g(r, row);
        cols.resize(row.size());
        for (std::size_t m = 0; m < row.size(); ++m)
          cols[m].push_back(row[m]);
      }
    std::vector<std::string> out;
    for (auto& c : cols)
      out.push_back(mv::join(c));
    return mv::join(out);
  }
template <typename S, int N, typename F>
  void op_one(const char* what, F f, T lo, T hi)
  {
    using V = vir::simdize<S, N>;
    using B = std::remove_cvref_t<decltype([] { if constexpr (requires { Vec<T>() = S(); }) return Vec<D<N>>(); else return IVec<D<N>>(); }())>;
    S xs[N], ys[N];
    auto small = [&] { return static_cast<T>(lo + static_cast<T>(mv::rng.below(static_cast<std::uint64_t>(hi - lo)))); };
    for (int i = 0; i < N; ++i)
      {
        xs[i].x = small(); xs[i].y = small(); ys[i].x = small(); ys[i].y = small();
      }
    if (N > 1)
      ys[N / 2] = xs[N / 2];
    const V a(&xs[0]), b(&ys[0]);
    auto collect = [](const auto& r, std::vector<std::string>& row) {
      if constexpr (std::is_same_v<std::remove_cvref_t<decltype(r)>, bool>)
        row.push_back(mv::raw(r));
      else
        leaves(r, [&](const auto& x) { row.push_back(mv::raw(x)); });
    };
    auto go = [&](const char* form, auto call, auto ref) {
      auto r = rec("lift");
      r.in = {mv::join(aos<S, N>(xs)), mv::join(aos<S, N>(ys))};
      r.ref = table(N, ref, collect);
      r.fault = tr::guarded([&] { r.out = result(call()); });
      r.emit(std::string("simdize operator ") + what + " " + form + " x " + std::to_string(N));
    };
    const B& ab = a;
    const B& bb = b;
    go("vectorized, vectorized", [&] { return f(a, b); }, [&](int i) { return f(xs[i], ys[i]); });
    go("vectorized, base", [&] { return f(a, bb); }, [&](int i) { return f(xs[i], ys[i]); });
    go("base, vectorized", [&] { return f(ab, b); }, [&](int i) { return f(xs[i], ys[i]); });
    go("vectorized, object", [&] { return f(a, ys[0]); }, [&](int i) { return f(xs[i], ys[0]); });
    go("object, vectorized", [&] { return f(xs[0], b); }, [&](int i) { return f(xs[0], ys[i]); });
  }
template <int N>
  void operators()
  {
    const T lo = std::is_unsigned_v<T> ? T(0) : T(-5), hi = 6;
#define DO(op) op_one<Vec<T>, N>(#op, [](const auto& a, const auto& b) { return a op b; }, lo, hi);
    DO(+) DO(-) DO(*) DO(==) DO(!=) DO(<) DO(<=) DO(>) DO(>=)
#undef DO
    if constexpr (std::is_integral_v<T>)
      {
#define DO(op) op_one<IVec<T>, N>(#op, [](const auto& a, const auto& b) { return a op b; }, T(1), T(7));
        DO(/) DO(%) DO(&) DO(|) DO(^) DO(<<) DO(>>)
#undef DO
      }
  }

// ------------------------------------------------------------------ constant evaluation
template <typename S, int N, typename Init>
  void cmem(const char* name, Init)
  {
    using V = vir::simdize<S, N>;
    static constexpr std::array<S, N> in = [] {
      std::array<S, N> r{};
      for (int i = 0; i < N; ++i)
        r[i] = Init()(i);
      return r;
    }();
    static constexpr std::array<S, N> out = [] {
      std::array<S, N> r{};
      const V v(in.data());
      v.copy_to(r.data());
      return r;
    }();
    static constexpr std::array<S, N> sub = [] {
      std::array<S, N> r{};
      V v(in[0]);
      v.copy_from(in.data());
      for (int i = 0; i < N; ++i)
        r[i] = v[i];
      return r;
    }();
    auto r = rec("same");
    r.in = aos<S, N>(in.data());
    r.out = aos<S, N>(out.data());
    r.emit(std::string("constant evaluation: simdize load and store ") + name + " x " + std::to_string(N));
    r.out = aos<S, N>(sub.data());
    r.emit(std::string("constant evaluation: simdize load and subscript ") + name + " x " + std::to_string(N));
  }

int main()
{
  tr::install();
  mv::rng = tr::Rng(tr::seed() * 113 + SET);
  for (int rep = 0; rep < (tr::thorough() ? 4 : 2); ++rep)
    {
#if SET == 0
      mem_members<P2<T>, 1, 2, 3, 4, 5, 8, 16>("P2");
      mem_members<P3<T>, 1, 2, 3, 4, 5, 6, 8, 16>("P3");
      mem_members<P4<T>, 2, 4, 8>("P4");
      mem_members<S1<T>, 1, 4, 8>("S1");
      mem_members<P2<T>, int(stdx::native_simd<T>::size()), 2 * int(stdx::native_simd<T>::size()) <= 32 ? 2 * int(stdx::native_simd<T>::size()) : 7>("P2");
      mem_members<P3<T>, int(stdx::native_simd<T>::size()), 2 * int(stdx::native_simd<T>::size()) <= 32 ? 2 * int(stdx::native_simd<T>::size()) : 7>("P3");
#elif SET == 1
      mem_members<Q2<T, int>, 4, 8>("Q2<T,int>");
      mem_members<Q2<unsigned, T>, 4, 8>("Q2<unsigned,T>");
      mem_members<Q2<float, T>, 4, 8>("Q2<float,T>");
      mem_members<Q3<float, T, float>, 4, 8>("Q3<float,T,float>");
      mem_members<Q3<T, unsigned, float>, 4, 8>("Q3<T,unsigned,float>");
      mem_members<Q3<T, double, short>, 4>("Q3<T,double,short>");
      mem_all<std::tuple<T>, 4>("tuple<T>");
      mem_all<std::tuple<T, T>, 4, 8>("tuple<T,T>");
      mem_all<std::tuple<T, T, T>, 4, 8>("tuple<T,T,T>");
      mem_all<std::tuple<T, char, double>, 4>("tuple<T,char,double>");
      mem_all<std::tuple<float, float, T>, 4, 8>("tuple<float,float,T>");
      mem_all<std::pair<T, short>, 4>("pair<T,short>");
      mem_all<std::pair<T, T>, 8>("pair<T,T>");
      mem_all<std::array<T, 2>, 4>("array<T,2>");
      mem_all<std::array<T, 3>, 4, 8>("array<T,3>");
      mem_all<std::array<T, 5>, 3>("array<T,5>");
      mem_all<Mix, 1, 3, 4, 8>("Mix");
      mem_all<Hom2, 4, 8>("Hom2");
      mem_all<Hom3, 4, 8>("Hom3");
#elif SET == 5
      mem_all<P5<T>, 3, 4>("P5");
      mem_all<P6<T>, 4>("P6");
#elif SET == 2
      conversions<1>(); conversions<2>(); conversions<3>(); conversions<4>(); conversions<8>();
      broadcast_all<P2<T>, 1, 4, 8>("P2");
      broadcast_all<P3<T>, 4, 8, 3>("P3");
      broadcast_all<Q3<T, double, short>, 4>("Q3<T,double,short>");
      broadcast_all<std::tuple<T, char>, 4>("tuple<T,char>");
      broadcast_all<Mix, 4, 3>("Mix");
      broadcast_all<Line, 1, 4>("Line");
      broadcast_all<Nest, 4, 8>("Nest");
      broadcast_all<Inner<T>, 4>("Inner");
      broadcast_all<std::tuple<std::tuple<T, double>, short, std::tuple<float>>, 4>("nested tuple");
      broadcast_all<std::tuple<P2<T>, short>, 4>("tuple<P2,short>");
      broadcast_all<std::array<T, 3>, 4>("array<T,3>");
#elif SET == 3
      operators<1>(); operators<2>(); operators<4>(); operators<8>(); operators<3>();
#else
      auto i2 = [](int i) { return P2<T>{T(3 * i + 1), T(50 - i)}; };
      auto i3 = [](int i) { return P3<T>{T(3 * i + 1), T(50 - i), T(i * i)}; };
      auto q3 = [](int i) { return Q3<T, double, short>{T(3 * i + 1), 0.5 * i, short(7 - i)}; };
      auto mx = [](int i) { return Mix{T(3 * i + 1), 0.5 * i, char(60 + i)}; };
      auto tp = [](int i) { return std::tuple<T, T, T>{T(3 * i + 1), T(50 - i), T(i)}; };
      cmem<P2<T>, 1>("P2", i2); cmem<P2<T>, 3>("P2", i2); cmem<P2<T>, 4>("P2", i2); cmem<P2<T>, 8>("P2", i2);
      cmem<P3<T>, 2>("P3", i3); cmem<P3<T>, 4>("P3", i3); cmem<P3<T>, 8>("P3", i3); cmem<P3<T>, 5>("P3", i3);
      cmem<Q3<T, double, short>, 4>("Q3", q3);
      cmem<Mix, 4>("Mix", mx); cmem<Mix, 3>("Mix", mx);
      cmem<std::tuple<T, T, T>, 4>("tuple", tp);
#endif
    }
}
