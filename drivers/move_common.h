// Recording of element-moving operations; see spec/MoveTrace.tla.
#pragma once
#include "trace.h"
#include <vir/simd.h>
#include <vir/detail.h>
namespace stdx = vir::stdx;

namespace mv
{
  inline tr::Rng rng(1);

  // object representation, NaN payloads included
  template <typename T>
    std::string raw(const T& x)
    {
      unsigned char u[sizeof(T)] = {};
      std::memcpy(u, &x, sizeof(T));
      if constexpr (std::is_same_v<T, bool>)
        return u[0] == 0 ? "[0]" : u[0] == 1 ? "[1]" : "[2]";
      else if constexpr (tr::value_bytes<T> == 1)
        return "[" + std::to_string(u[0]) + "]";
      std::string r = "[";
      for (int i = 0; i < tr::value_bytes<T>; i += 2)
        {
          if (i)
            r += ',';
          r += std::to_string(u[i] + 256 * u[i + 1]);
        }
      return r + "]";
    }

  template <typename T>
    std::string type()
    {
      if constexpr (std::is_same_v<T, bool>)
        return "{\"k\":\"u\",\"bits\":8}";
      else
        return std::string("{\"k\":\"") + (std::is_floating_point_v<T> ? "f" : std::is_signed_v<T> ? "i" : "u")
                 + "\",\"bits\":" + std::to_string(8 * tr::value_bytes<T>) + "}";
    }

  // any element type: pseudo-random object representation; long double: a valid number
  template <typename T>
    T random()
    {
      if constexpr (std::is_same_v<T, bool>)
        return rng.next() & 64;
      else if constexpr (std::is_same_v<T, long double>)
        return static_cast<long double>(static_cast<long long>(rng.next())) * (1 + static_cast<long double>(rng.below(100)));
      else
        {
          std::uint64_t u = rng.next();
          T x;
          std::memcpy(&x, &u, sizeof(T));
          return x;
        }
    }

  template <typename T, typename = void> struct scalar_of { using type = T; };
  template <typename T> struct scalar_of<T, std::void_t<typename T::value_type>> { using type = typename T::value_type; };
  template <typename V> using scalar_t = typename scalar_of<V>::type;

  template <typename V>
    std::string lanes(const V& v)
    {
      if constexpr (std::is_arithmetic_v<V>)
        return "[" + raw(v) + "]";
      else
        {
          std::string r = "[";
          for (std::size_t i = 0; i < v.size(); ++i)
            {
              if (i)
                r += ',';
              const scalar_t<V> x = v[i];
              r += raw(x);
            }
          return r + "]";
        }
    }

  template <typename V>
    V make()
    {
      if constexpr (std::is_arithmetic_v<V>)
        return random<V>();
      else
        {
          using T = typename V::value_type;
          alignas(256) T mem[V::size()];
          for (auto& x : mem)
            x = random<T>();
          return V(mem, stdx::element_aligned);
        }
    }

  inline std::string join(const std::vector<std::string>& v)
  {
    std::string r = "[";
    for (auto& x : v)
      {
        if (r.size() > 1)
          r += ',';
        r += x;
      }
    return r + "]";
  }

  struct Rec
  {
    std::string op, name, p = "[]", ty, sty, ref = "[]";
    std::vector<std::string> in, out;
    int fault = 0;
    long outside = 0;  // bytes changed outside of the destination
    void emit(const std::string& label)
    {
      tr::Out o;
      o.str("op", op).str("name", name).raw("p", p).raw("ty", ty).raw("sty", sty).raw("in", join(in)).raw("out", join(out))
        .raw("ref", ref).num("fault", fault).num("outside", outside);
      o.emit(label);
    }
  };
}
