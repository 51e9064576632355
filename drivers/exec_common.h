// Elements, buffers and logging for the algorithm drivers (C01..C06, C18).
#pragma once
#include <vir/simd_execution.h>
#include <span>
#include <tuple>
#include "trace.h"

namespace stdx = vir::stdx;

// ---- element types -----------------------------------------------------------------------------
template <typename T> struct P2 { T x, y; };
template <typename T> struct P3 { T x, y, z; };
struct Mix { float a; double b; short c; };          // non-template aggregate, mixed member sizes
using Tup = std::tuple<int, double>;

template <typename T>
  struct El // arithmetic
  {
    static T make(long i) { return static_cast<T>(i); }
    static long id(const T& x) { return static_cast<long>(x); }
    template <typename V> static long lane(const V& v, int i) { return static_cast<long>(T(v[i])); }
    template <typename V> static void bump(V& v) { v += T(1); }
  };
template <typename T>
  struct El<P2<T>>
  {
    static P2<T> make(long i) { return {T(i), T(i + 300)}; }
    static long id(const P2<T>& p) { return long(p.y) - long(p.x) == 300 ? long(p.x) : -7; }
    template <typename V> static long lane(const V& v, int i)
    { return id(P2<T>{T(v.x[i]), T(v.y[i])}); }
    template <typename V> static void bump(V& v) { v.x += T(1); v.y += T(1); }
  };
template <typename T>
  struct El<P3<T>>
  {
    static P3<T> make(long i) { return {T(i), T(i + 300), T(i + 500)}; }
    static long id(const P3<T>& p)
    { return long(p.y) - long(p.x) == 300 && long(p.z) - long(p.x) == 500 ? long(p.x) : -7; }
    template <typename V> static long lane(const V& v, int i)
    { return id(P3<T>{T(v.x[i]), T(v.y[i]), T(v.z[i])}); }
    template <typename V> static void bump(V& v) { v.x += T(1); v.y += T(1); v.z += T(1); }
  };
template <>
  struct El<Mix>
  {
    static Mix make(long i) { return {float(i), double(i + 300), short(i + 500)}; }
    static long id(const Mix& p)
    { return long(p.b) - long(p.a) == 300 && long(p.c) - long(p.a) == 500 ? long(p.a) : -7; }
    template <typename V> static long lane(const V& v, int i)
    {
      using vir::struct_get; using std::get;
      return id(Mix{float(get<0>(v)[i]), double(get<1>(v)[i]), short(get<2>(v)[i])});
    }
    template <typename V> static void bump(V& v)
    { using std::get; get<0>(v) += 1.f; get<1>(v) += 1.; get<2>(v) += short(1); }
  };
template <>
  struct El<Tup>
  {
    static Tup make(long i) { return {int(i), double(i + 300)}; }
    static long id(const Tup& p)
    { return long(std::get<1>(p)) - long(std::get<0>(p)) == 300 ? long(std::get<0>(p)) : -7; }
    template <typename V> static long lane(const V& v, int i)
    { using std::get; return id(Tup{int(get<0>(v)[i]), double(get<1>(v)[i])}); }
    template <typename V> static void bump(V& v)
    { using std::get; get<0>(v) += 1; get<1>(v) += 1.; }
  };

template <typename T>
  inline constexpr long max_id = std::is_arithmetic_v<T> && sizeof(T) == 1 ? 250
                                   : std::is_same_v<T, short> || std::is_same_v<T, Mix> ? 30000 : 60000;

// first id if the lanes are id, id+1, ..., otherwise -1
template <typename T, typename V>
  long first_id(const V& v)
  {
    const long p = El<T>::lane(v, 0);
    for (int i = 1; i < int(V::size()); ++i)
      if (El<T>::lane(v, i) != p + i)
        return -1;
    return p;
  }

template <typename V>
  constexpr long mem_align()
  {
    if constexpr (stdx::is_simd_v<V>)
      return stdx::memory_alignment_v<V>;
    else
      return 1;
  }

// ---- call log (static: must survive a siglongjmp out of the algorithm) ---------------------------
struct Log
{
  static constexpr int cap = 20000;
  static inline long d[cap][5];
  static inline int n = 0;
  static void call(long args, long w, long p0, long p1 = -9, long p2 = -9)
  {
    if (n < cap)
      {
        d[n][0] = args; d[n][1] = w; d[n][2] = p0; d[n][3] = p1; d[n][4] = p2;
        ++n;
      }
  }
  static std::string json()
  {
    std::string r = "[";
    for (int i = 0; i < n; ++i)
      {
        if (i) r += ',';
        r += "[" + std::to_string(d[i][0]) + "," + std::to_string(d[i][1]) + "," + std::to_string(d[i][2]);
        for (int k = 3; k < 5; ++k)
          if (d[i][k] != -9)
            r += "," + std::to_string(d[i][k]);
        r += "]";
      }
    return r + "]";
  }
};

// ---- policies ------------------------------------------------------------------------------------
enum Pol { none, aligned, autop, match };
inline const char* pol_name(Pol p)
{ return p == none ? "none" : p == aligned ? "aligned" : p == autop ? "auto" : "match"; }

// order: apply modifiers in one of two orders, both must mean the same
template <int S, int U, Pol P, bool Flip = false>
  constexpr auto
  policy()
  {
    auto sz = [](auto p) { if constexpr (S > 0) return p.template prefer_size<S>(); else return p; };
    auto un = [](auto p) { if constexpr (U > 1) return p.template unroll_by<U>(); else return p; };
    auto pr = [](auto p) {
      if constexpr (P == aligned) return p.prefer_aligned();
      else if constexpr (P == autop) return p.auto_prologue();
      else if constexpr (P == match) return p.assume_matching_size();
      else return p;
    };
    if constexpr (Flip)
      return pr(un(sz(vir::execution::simd)));
    else
      return sz(pr(un(vir::execution::simd)));
  }

// ---- placement of a range of n elements of T -------------------------------------------------------
// kind 0: ends at an inaccessible page; 1: starts right after an inaccessible page;
// kind >= 2: (kind - 2) elements after a 64-byte boundary, in the middle
template <typename T>
  T*
  place(tr::Arena& a, long n, int kind)
  {
    if (kind == 0)
      {
        auto p = reinterpret_cast<std::uintptr_t>(a.end()) - n * sizeof(T);
        p -= p % alignof(T); // a no-op for all element types used
        return reinterpret_cast<T*>(p);
      }
    if (kind == 1)
      return reinterpret_cast<T*>(a.base);
    return reinterpret_cast<T*>(a.base + 1024) + (kind - 2);
  }

template <typename T>
  long offset_of(const T* p, long ma)
  { return ma % sizeof(T) == 0 ? long(reinterpret_cast<std::uintptr_t>(p) % ma) / long(sizeof(T)) : 0; }
