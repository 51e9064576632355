// simd_permute and simd_shift_in: every predefined permutation, index tables, result sizes and
// offsets, at run time and in constant expressions.
// -DTYPE=element type  -DSET=0 (all offsets, small widths) | 1 (index tables) | 2 (shift_in) | 3 (wide) | 4 (constexpr)
#include "move_common.h"
#include <vir/simd_permute.h>

namespace P = vir::simd_permutations;
using T = TYPE;

template <typename V> constexpr const char* kind = stdx::is_simd_v<V> ? "simd" : stdx::is_simd_mask_v<V> ? "mask" : "scalar";
template <typename V> constexpr int size_of = [] { if constexpr (std::is_arithmetic_v<V>) return 1; else return int(V::size()); }();

template <std::size_t N, typename V, typename F>
  [[gnu::noinline]] auto call(const V& v, F f)
  { return vir::simd_permute<N>(v, f); }

// what is the same for every instantiation is not a template: compiling the strings once saves most of the time
struct Info
{
  const char* op;
  const char* what;
  const char* kind;
  const char* abi;
  int n;
  const char* name;
  long a;
  std::string (*type)();
};
using Show = std::string (*)(const void*);
template <typename V> std::string show(const void* v) { return mv::lanes(*static_cast<const V*>(v)); }
template <std::size_t N, typename V, typename F> std::string run(const void* v) { return mv::lanes(call<N>(*static_cast<const V*>(v), F())); }

void record(const Info& i, const std::vector<long>& p, const void* const* v, int inputs, Show in, Show f, const std::string& more)
{
  mv::Rec r{i.op, i.name};
  r.p = tr::list(p);
  r.ty = r.sty = i.type();
  for (int k = 0; k < inputs; ++k)
    r.in.push_back(in(v[k]));
  r.fault = tr::guarded([&] { r.out = {f(inputs == 1 ? v[0] : v)}; });
  r.emit(std::string(i.what) + i.kind + " " + i.abi + std::to_string(i.n) + " " + more);
}
void record_one(const Info& i, int m, const void* v, Show in, Show f)
{ record(i, {m, i.a}, &v, 1, in, f, std::string(i.name) + " " + std::to_string(i.a) + " result " + std::to_string(m)); }

template <std::size_t N, typename V, typename F>
  void one(const char* abi, const char* name, long a, F)
  {
    const V v = mv::make<V>();
    record_one({"permute", "permute ", kind<V>, abi, size_of<V>, name, a, &mv::type<mv::scalar_t<V>>}, N == 0 ? size_of<V> : int(N), &v,
               &show<V>, &run<N, V, F>);
  }

template <typename V, int Lo, int Hi, typename F>
  void offsets(F f)
  {
    [&]<int... I>(std::integer_sequence<int, I...>) {
      (f(std::integral_constant<int, Lo + I>()), ...);
    }(std::make_integer_sequence<int, Hi - Lo + 1>());
  }

template <std::size_t N, typename V, int Span>
  void named(const char* abi)
  {
    constexpr int n = size_of<V>;
    constexpr int m = N == 0 ? n : int(N);
    if constexpr (n % 2 == 0 and m <= n)
      {
        one<N, V>(abi, "duplicate_even", 0, P::duplicate_even);
        one<N, V>(abi, "duplicate_odd", 0, P::duplicate_odd);
      }
    else if constexpr (m <= n)
      one<N, V>(abi, "duplicate_even", 0, P::duplicate_even);
    if constexpr (m <= n)
      {
        one<N, V>(abi, "reverse", 0, P::reverse);
        offsets<V, 1, n / 2>([&](auto o) {
          if constexpr (n % (2 * o) == 0)
            one<N, V>(abi, "swap_neighbors", o, P::swap_neighbors<o>);
        });
        one<N, V>(abi, "broadcast", 0, P::broadcast_first);
        one<N, V>(abi, "broadcast", -1, P::broadcast_last);
        offsets<V, -Span, Span>([&](auto o) { one<N, V>(abi, "shift", o, P::shift<o>); });
      }
    offsets<V, (-n < -Span ? -Span : -n), (n - 1 > Span ? Span : n - 1)>([&](auto o) {
      one<N, V>(abi, "broadcast", o, P::broadcast<o>);
    });
    offsets<V, -Span, Span>([&](auto o) { one<N, V>(abi, "rotate", o, P::rotate<o>); });
  }

template <typename V>
  void all(const char* abi)
  {
    constexpr int n = size_of<V>;
    named<0, V, n <= 8 ? n + 2 : 9>(abi);
    if constexpr (SET == 0)
      {
        if constexpr (n > 1)
          named<1, V, 2>(abi);
        if constexpr (n > 3)
          named<n - 1, V, 2>(abi);
        if constexpr (n % 4 == 0)
          named<n / 2, V, 2>(abi);
        named<n + 1, V, 2>(abi);
        named<2 * n, V, 2>(abi);
      }
    if constexpr (n > 8)
      {
        one<0, V>(abi, "rotate", n - 1, P::rotate<n - 1>);
        one<0, V>(abi, "rotate", n, P::rotate<n>);
        one<0, V>(abi, "rotate", n + 1, P::rotate<n + 1>);
        one<0, V>(abi, "rotate", -n - 1, P::rotate<-n - 1>);
        one<0, V>(abi, "rotate", 10 * n + 2, P::rotate<10 * n + 2>);
        one<0, V>(abi, "shift", n - 1, P::shift<n - 1>);
        one<0, V>(abi, "shift", 1 - n, P::shift<1 - n>);
        one<0, V>(abi, "shift", n, P::shift<n>);
        one<0, V>(abi, "shift", -n, P::shift<-n>);
        one<0, V>(abi, "broadcast", n - 1, P::broadcast<n - 1>);
        one<0, V>(abi, "broadcast", -n, P::broadcast<-n>);
      }
    one<0, V>(abi, "rotate", 1000000007, P::rotate<1000000007>);
    one<0, V>(abi, "rotate", -1000000008, P::rotate<-1000000008>);
    one<0, V>(abi, "shift", 1000000, P::shift<1000000>);
    one<0, V>(abi, "shift", -1000000, P::shift<-1000000>);
  }

// ------------------------------------------------------------------ index tables
constexpr unsigned hash(unsigned x)
{
  x ^= x >> 16; x *= 0x7feb352du; x ^= x >> 15; x *= 0x846ca68bu; x ^= x >> 16;
  return x;
}
// index for result element i of n source elements; kind K selects what it may contain
constexpr int entry(int k, int i, int n)
{
  const unsigned h = hash(unsigned(k * 7919 + i * 104729 + n * 31));
  const int j = int(h % unsigned(n));
  switch (k % 4)
    {
      case 0: return j;
      case 1: return (h >> 12) % 3 == 0 ? j - n : j;
      case 2: return (h >> 12) % 3 == 0 ? vir::simd_permute_zero : (h >> 12) % 3 == 1 ? j - n : j;
      default: return (h >> 12) % 4 == 0 ? vir::simd_permute_zero : (h >> 12) % 4 == 1 ? vir::simd_permute_uninit : j;
    }
}
template <int K> struct TableSize
{ consteval int operator()(int i, auto size) const { return entry(K, i, int(size.value)); } };
template <int K, int S> struct TableNoSize
{ consteval int operator()(int i) const { return entry(K, i, S); } };
template <int K, int S> struct TableUnsigned            // an unsigned index function
{ consteval unsigned operator()(unsigned i) const { return unsigned(entry(4 * K, int(i), S)); } };

void record_table(const Info& i, int m, int kind_, const void* v, Show in, Show f)
{
  std::vector<long> p;
  for (int k = 0; k < m; ++k)
    p.push_back(entry(kind_, k, i.n));
  record(i, p, &v, 1, in, f, "index table " + std::to_string(i.a) + " result " + std::to_string(m));
}
template <std::size_t N, typename V, typename F>
  void table(const char* abi, int k, int kind_, F)
  {
    const V v = mv::make<V>();
    record_table({"table", "permute by index table: ", kind<V>, abi, size_of<V>, "", k, &mv::type<mv::scalar_t<V>>}, N == 0 ? size_of<V> : int(N),
                 kind_, &v, &show<V>, &run<N, V, F>);
  }
template <typename V>
  void tables(const char* abi)
  {
    constexpr int n = size_of<V>;
    offsets<V, 0, 11>([&](auto k) {
      // uninit elements of a mask are not valid bools
      if constexpr (not (stdx::is_simd_mask_v<V> and k % 4 == 3))
        {
          table<0, V>(abi, k, k, TableSize<k>());
          table<0, V>(abi, k, k, TableNoSize<k, n>());
          if constexpr (k < 4)
            {
              table<0, V>(abi, k, 4 * k, TableUnsigned<k, n>());
              if constexpr (n > 1)
                table<n - 1, V>(abi, k, k, TableSize<k>());
              table<n + 1, V>(abi, k, k, TableNoSize<k, n>());
              table<2 * n, V>(abi, k, k, TableSize<k>());
              table<(n > 2 ? n / 2 : 1), V>(abi, k, k, TableSize<k>());
            }
        }
    });
  }

// ------------------------------------------------------------------ shift_in
template <int O, typename V, typename... Vs>
  [[gnu::noinline]] V call_shift(const V& v, const Vs&... vs)
  { return vir::simd_shift_in<O>(v, vs...); }

template <int O, typename V, std::size_t... I> std::string run_shift(const void* v)
{
  if constexpr (sizeof...(I) == 1)
    return mv::lanes(call_shift<O>(*static_cast<const V*>(v)));
  else
    return mv::lanes(call_shift<O>(*static_cast<const V*>(static_cast<const void* const*>(v)[I])...));
}
void record_shift(const Info& i, const void* const* v, int inputs, Show in, Show f)
{ record(i, {i.a}, v, inputs, in, f, "offset " + std::to_string(i.a) + " inputs " + std::to_string(inputs)); }
template <int O, typename V, std::size_t... I>
  void shift_one(const char* abi, std::index_sequence<I...>)
  {
    const std::array<V, sizeof...(I)> in = {((void)I, mv::make<V>())...};
    const void* const v[] = {&in[I]...};
    record_shift({"shift_in", "shift_in ", kind<V>, abi, size_of<V>, "", O, &mv::type<mv::scalar_t<V>>}, v, sizeof...(I), &show<V>,
                 &run_shift<O, V, I...>);
  }
template <typename V>
  void shift_all(const char* abi)
  {
    constexpr int n = size_of<V>;
    constexpr int s = n <= 8 ? 1 : n / 4 + 1;
    offsets<V, -(2 * n + 1) / s, (4 * n + 1) / s>([&](auto o) {
      if constexpr (o * s < 2 * n)
        shift_one<o * s, V>(abi, std::make_index_sequence<1>());
      if constexpr (o * s < 3 * n)
        shift_one<o * s, V>(abi, std::make_index_sequence<2>());
      shift_one<o * s, V>(abi, std::make_index_sequence<3>());
    });
    shift_one<n, V>(abi, std::make_index_sequence<5>());
    shift_one<3 * n + 1, V>(abi, std::make_index_sequence<5>());
    if constexpr (n > 8)
      {
        shift_one<1, V>(abi, std::make_index_sequence<2>());
        shift_one<n - 1, V>(abi, std::make_index_sequence<2>());
        shift_one<n + 1, V>(abi, std::make_index_sequence<2>());
        shift_one<2 * n - 1, V>(abi, std::make_index_sequence<2>());
        shift_one<2 * n, V>(abi, std::make_index_sequence<2>());
        shift_one<-1, V>(abi, std::make_index_sequence<2>());
        shift_one<-n, V>(abi, std::make_index_sequence<2>());
        shift_one<-n - 1, V>(abi, std::make_index_sequence<2>());
      }
  }

// ------------------------------------------------------------------ constant evaluation
template <typename V>
  constexpr V cval()
  { return V([](auto i) { return static_cast<typename V::value_type>(7 * i + 3); }); }

template <typename V, typename F>
  void cone(const char* abi, const char* name, long a, F)
  {
    constexpr V v = cval<V>();
    static constexpr auto res = vir::simd_permute(v, F());
    record_one({"permute", "constant evaluation: permute ", kind<V>, abi, size_of<V>, name, a, &mv::type<typename V::value_type>}, size_of<V>, &v,
               &show<V>, +[](const void*) { return mv::lanes(res); });
  }
template <int O, typename V>
  void cshift(const char* abi)
  {
    constexpr V v = cval<V>();
    constexpr V w([](auto i) { return static_cast<typename V::value_type>(50 + i); });
    static constexpr V res = vir::simd_shift_in<O>(v, w);
    const void* const in[] = {&v, &w};
    record_shift({"shift_in", "constant evaluation: shift_in ", kind<V>, abi, size_of<V>, "", O, &mv::type<typename V::value_type>}, in, 2, &show<V>,
                 [](const void*) { return mv::lanes(res); });
  }
template <typename V>
  void call_const(const char* abi)
  {
    constexpr int n = V::size();
    cone<V>(abi, "reverse", 0, P::reverse);
    cone<V>(abi, "duplicate_even", 0, P::duplicate_even);
    if constexpr (n % 2 == 0)
      cone<V>(abi, "duplicate_odd", 0, P::duplicate_odd);
    offsets<V, 1, n / 2>([&](auto o) {
      if constexpr (n % (2 * o) == 0)
        cone<V>(abi, "swap_neighbors", o, P::swap_neighbors<o>);
    });
    constexpr int span = n <= 8 ? n + 2 : 9;
    offsets<V, -span, span>([&](auto o) { cone<V>(abi, "rotate", o, P::rotate<o>); });
    offsets<V, -span, span>([&](auto o) { cone<V>(abi, "shift", o, P::shift<o>); });
    offsets<V, -n, n - 1>([&](auto o) { cone<V>(abi, "broadcast", o, P::broadcast<o>); });
    offsets<V, -span, 2 * span>([&](auto o) { cshift<o, V>(abi); });
  }

template <int N> using Fix = stdx::fixed_size_simd<T, N>;
template <int N> using Ded = stdx::simd<T, stdx::simd_abi::deduce_t<T, N>>;
template <int N> using FixM = stdx::fixed_size_simd_mask<T, N>;

template <typename V> void go(const char* abi)
{
  for (int rep = 0; rep < (stdx::is_simd_mask_v<V> ? 4 : 1) * (tr::thorough() ? 3 : 1); ++rep)
    {
#if SET == 0 or SET == 3
      all<V>(abi);
#elif SET == 1
      tables<V>(abi);
#elif SET == 2
      shift_all<V>(abi);
#else
      call_const<V>(abi);
#endif
    }
}
template <int N> void both()
{
  go<Ded<N>>("deduced");
  if constexpr (not std::is_same_v<Ded<N>, Fix<N>>)
    go<Fix<N>>("fixed");
#if not VIR_GLIBCXX_STDX_SIMD and SET != 4
  go<FixM<N>>("fixed");
#endif
}

int main()
{
  tr::install();
  mv::rng = tr::Rng(tr::seed() * 77 + SET);
#if SET == 3
  both<16>();
  both<12>();
  go<stdx::native_simd<T>>("native");
#elif SET == 1
  both<1>(); both<2>(); both<3>(); both<4>(); both<5>(); both<8>(); both<16>();
  go<stdx::native_simd<T>>("native");
#elif SET == 2
  both<1>(); both<2>(); both<3>(); both<4>(); both<7>(); both<8>();
  go<stdx::native_simd<T>>("native");
#elif SET == 4
  both<1>(); both<2>(); both<3>(); both<4>(); both<8>();
  go<stdx::native_simd<T>>("native");
#else
  both<1>(); both<2>(); both<3>(); both<4>(); both<5>(); both<6>(); both<8>();
#endif
#if SET == 0
  one<0, T>("", "rotate", 1, P::rotate<1>);
  one<0, T>("", "rotate", -1, P::rotate<-1>);
  one<0, T>("", "reverse", 0, P::reverse);
  one<0, T>("", "shift", 1, P::shift<1>);
  one<0, T>("", "shift", 0, P::shift<0>);
  one<0, T>("", "shift", -1, P::shift<-1>);
  one<1, T>("", "shift", -1, P::shift<-1>);
  one<0, T>("", "broadcast", 0, P::broadcast_first);
  one<1, T>("", "broadcast", -1, P::broadcast_last);
  one<0, T>("", "duplicate_even", 0, P::duplicate_even);
  one<3, T>("", "rotate", 1, P::rotate<1>);
  one<4, T>("", "broadcast", 0, P::broadcast<0>);
  one<8, T>("", "broadcast", -1, P::broadcast<-1>);
#endif
}
