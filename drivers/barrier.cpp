// C20: fake_modify / fake_read.  -DTYPE=element type
#include "move_common.h"
#include <vir/simd_benchmarking.h>
#include <array>
#include <cfenv>
using T = TYPE;

template <typename X>
  std::string image(const X& x)
  {
    if constexpr (stdx::is_simd_mask_v<X>)
      {
        std::string r = "[";
        for (int i = 0; i < int(x.size()); ++i)
          r += std::string(i ? "," : "") + (x[i] ? "[1]" : "[0]");
        return r + "]";
      }
    else if constexpr (stdx::is_simd_v<X>)
      {
        std::string r = "[";
        for (int i = 0; i < int(x.size()); ++i)
          r += (i ? "," : "") + tr::limbs(typename X::value_type(x[i]));
        return r + "]";
      }
    else if constexpr (std::is_arithmetic_v<X>)
      return "[" + tr::limbs(x) + "]";
    else
      {
        std::string r = "[";
        for (std::size_t i = 0; i < x.size(); ++i)
          r += (i ? "," : "") + tr::limbs(x[i]);
        return r + "]";
      }
  }

// what the compiler may know about the value
template <typename X>
  [[gnu::always_inline]] inline bool known(const X& x)
  {
    if constexpr (stdx::is_simd_v<X> or stdx::is_simd_mask_v<X>)
      return __builtin_constant_p(x[0]) or __builtin_constant_p(x[x.size() - 1]);
    else
      return __builtin_constant_p(x);
  }

static void emit(const char* op, const std::string& before, const std::string& after, int cp, const std::string& what)
{ tr::Out().str("op", op).raw("before", before).raw("after", after).num("known", cp).emit(LABEL " " + what); }

// a value computed at run time, alone and between others
template <typename X>
  [[gnu::noinline]] void one(X x, const char* what)
  {
    const std::string b = image(x);
    vir::fake_modify(x);
    emit("modify", b, image(x), 0, what);
    vir::fake_read(x);
    emit("read", b, image(x), 0, what);
    X y = x, z = x;
    int i = 4711;
    vir::fake_modify(y, i, z);
    emit("modify", "[" + b + "," + b + ",[" + tr::limbs(4711) + "]]", "[" + image(y) + "," + image(z) + ",[" + tr::limbs(i) + "]]", known(i), what);
    vir::fake_read(y, i, z, x);
    emit("read", "[" + b + "," + b + "," + b + "]", "[" + image(y) + "," + image(z) + "," + image(x) + "]", 0, what);
  }

// a constant: afterwards the compiler knows nothing about it
template <typename X>
  [[gnu::noinline]] void constant(const char* what)
  {
    X x(typename X::value_type(1));
    const std::string b = image(x);
    X y(typename X::value_type(1));
    vir::fake_modify(y);
    const bool k = known(y);
    emit("modify", b, image(y), k, what);
    X z(typename X::value_type(1)), w(typename X::value_type(1));
    vir::fake_modify(z, w);
    const bool kz = known(z), kw = known(w);
    emit("modify", "[" + b + "," + b + "]", "[" + image(z) + "," + image(w) + "]", kz + kw, what);
  }

// An inexact operation on constants between the barriers: the exception flag tells whether it was performed (once per iteration).
template <typename X>
  [[gnu::noinline]] void work(const char* what)
  {
    if constexpr (std::is_floating_point_v<T>)
      {
        int performed = 0;
        X a(T(1)), b(T(3));
        for (int i = 0; i < 3; ++i)
          {
            std::feclearexcept(FE_ALL_EXCEPT);
            vir::fake_modify(a, b);
            X r = a / b;
            vir::fake_read(r);
            performed += std::fetestexcept(FE_INEXACT) != 0;
          }
        tr::Out().str("op", "work").num("times", 3).num("performed", performed).emit(LABEL " " + std::string(what));
        performed = 0;
        X c(T(3));
        for (int i = 0; i < 3; ++i)
          {
            std::feclearexcept(FE_ALL_EXCEPT);
            vir::fake_modify(c);
            X r = T(1) / c, q = c;
            vir::fake_modify(q, r);
            performed += std::fetestexcept(FE_INEXACT) != 0;
          }
        tr::Out().str("op", "work").num("times", 3).num("performed", performed).emit(LABEL " " + std::string(what));
      }
  }

// only one lane is inexact: no part of the arguments is known
template <typename X, int Lane>
  [[gnu::noinline]] void lane_work(const char* what)
  {
    if constexpr (std::is_floating_point_v<T>)
      {
        int performed = 0;
        for (int i = 0; i < 2; ++i)
          {
            X a(T(1)), b([](auto j) { return j == Lane ? T(3) : T(1); });
            std::feclearexcept(FE_ALL_EXCEPT);
            vir::fake_modify(a, b);
            X r = a / b;
            vir::fake_read(r);
            performed += std::fetestexcept(FE_INEXACT) != 0;
          }
        tr::Out().str("op", "work").num("times", 2).num("performed", performed).emit(LABEL " " + std::string(what) + " lane " + std::to_string(Lane));
      }
  }

template <std::size_t N>
  void aggregate()
  {
    std::array<T, N> a;
    for (auto& x : a)
      x = mv::random<T>();
    one(a, "aggregate");
  }

template <typename V>
  void all(const char* what)
  {
    for (int i = 0; i < 4; ++i)
      {
        V v([](auto) { return mv::random<T>(); });
        one(v, what);
        typename V::mask_type k;
        for (int j = 0; j < int(k.size()); ++j)
          k[j] = bool(mv::rng.below(2));
        one(k, what);
      }
    constant<V>(what);
    constant<typename V::mask_type>(what);
    work<V>(what);
    lane_work<V, 0>(what);
    lane_work<V, int(V::size()) / 2>(what);
    lane_work<V, int(V::size()) - 1>(what);
  }

int main()
{
  tr::install();
  for (int i = 0; i < 8; ++i)
    one(mv::random<T>(), "scalar value");
  {
    T x = 1, y = 2;
    vir::fake_modify(x, y);
    const bool k = known(x) or known(y);
    emit("modify", "[" + tr::limbs(T(1)) + "," + tr::limbs(T(2)) + "]", "[" + tr::limbs(x) + "," + tr::limbs(y) + "]", k, "scalar constants");
  }
  work<T>("scalar value");
  aggregate<1>();
  aggregate<2>();
  aggregate<3>();
  aggregate<4>();
  aggregate<5>();
  aggregate<8>();
  aggregate<13>();
  aggregate<16>();
  aggregate<33>();
  all<stdx::simd<T, stdx::simd_abi::scalar>>("scalar");
  all<stdx::native_simd<T>>("native");
  all<stdx::fixed_size_simd<T, 1>>("fixed 1");
  all<stdx::fixed_size_simd<T, 3>>("fixed 3");
  all<stdx::fixed_size_simd<T, 4>>("fixed 4");
  all<stdx::fixed_size_simd<T, 7>>("fixed 7");
  all<stdx::fixed_size_simd<T, 8>>("fixed 8");
  all<stdx::fixed_size_simd<T, 17>>("fixed 17");
  all<stdx::fixed_size_simd<T, 32>>("fixed 32");
}
