// C13: <cmath> on simd.  -DTYPE=<T> -DWS=<width set>
#include "lanes_common.h"
#include <cmath>
using T = TYPE;

template <typename X, typename V>
  std::string
  lanes(const V& v)
  {
    std::string r = "[";
    for (int i = 0; i < int(V::size()); ++i)
      r += (i ? "," : "") + (std::is_same_v<X, bool> ? "[" + std::to_string(int(v[i])) + "]" : tr::limbs<X>(v[i]));
    return r + "]";
  }
template <typename X>
  std::string
  one(X x)
  {
    if constexpr (std::is_same_v<X, bool>)
      return "[" + std::to_string(int(x)) + "]";
    else
      return tr::limbs<X>(x);
  }

template <typename T>
  T farg(tr::Rng& r, int dom) // dom 0: anything, 1: moderate finite, 2: finite
  {
    if (dom == 0)
      return edge<T>(r);
    if (dom == 1)
      switch (r.below(8))
      {
        case 0: return T(long(r.below(20)) - 10);
        case 1: return T(long(r.below(20)) - 10) + T(0.5);
        case 2: return -T(0);
        case 3: return T(0);
        default: return T(long(r.below(2000000)) - 1000000) / T(1 + r.below(100000));
      }
    for (;;)
      {
        T x = edge<T>(r);
        if (x - x == 0)
          return x;
      }
  }

template <typename T, typename A>
  struct Math
  {
    using V = stdx::simd<T, A>;
    using K = stdx::simd_mask<T, A>;
    static constexpr int N = V::size();
    using VI = stdx::fixed_size_simd<int, N>;
    using VL = stdx::fixed_size_simd<long, N>;
    tr::Rng rng{tr::seed() * 31 + N + sizeof(T)};
    std::string label = std::string(LABEL) + " N=" + std::to_string(N);
    V x, y, z;
    int how = 0;

    void fill(V& v, int dom)
    {
      for (int i = 0; i < N; ++i)
        v[i] = farg<T>(rng, dom);
    }
    void emit(const char* f, const std::string& out, const std::string& ref, int fault, const std::string& out2 = "[]", const std::string& ref2 = "[]")
    {
      tr::Out o;
      o.str("f", f).raw("ty", ty_json<T>()).num("N", N).raw("x", lanes<T>(x)).raw("y", lanes<T>(y))
       .raw("out", out.empty() ? "[]" : out).raw("ref", ref).raw("out2", out2).raw("ref2", ref2).num("fault", fault);
      o.emit(label + " " + f + " form " + std::to_string(how));
    }

    // R: result element type
    template <typename R, typename F, typename S>
      void
      f1(const char* f, int dom, F&& fun, S&& sc)
      {
        for (int rep = 0; rep < (tr::thorough() ? 10 : 2); ++rep)
          {
            fill(x, dom);
            fill(y, 1);
            std::string out, ref = "[";
            const V x0 = x;
            const int fault = tr::guarded([&] {
              auto r = fun(x);
              static_assert(std::is_same_v<typename decltype(r)::value_type, R>);
              static_assert(decltype(r)::size() == N);
              out = lanes<R>(r);
            });
            for (int i = 0; i < N; ++i)
              ref += (i ? "," : "") + one<R>(sc(T(x0[i])));
            emit(f, out, ref + "]", fault);
          }
      }
    template <typename R, typename F, typename S>
      void
      f2(const char* f, int dom, F&& fun, S&& sc)
      {
        for (int rep = 0; rep < (tr::thorough() ? 12 : 3); ++rep)
          {
            how = rep % 3;
            fill(x, dom);
            fill(y, dom);
            T s = farg<T>(rng, dom);
            for (int i = 0; i < N; ++i)
              {
                if (how == 1) y[i] = s;
                if (how == 2) x[i] = s;
                if (how == 0 && rng.below(5) == 0) y[i] = T(x[i]);
              }
            std::string out, ref = "[";
            const int fault = tr::guarded([&] {
              if (how == 0) out = lanes<R>(fun(x, y));
              else if (how == 1) out = lanes<R>(fun(x, s));
              else out = lanes<R>(fun(s, y));
            });
            for (int i = 0; i < N; ++i)
              ref += (i ? "," : "") + one<R>(sc(T(x[i]), T(y[i])));
            emit(f, out, ref + "]", fault);
          }
        how = 0;
      }
    template <typename F, typename S>
      void
      f3(const char* f, int dom, F&& fun, S&& sc)
      {
        for (int rep = 0; rep < (tr::thorough() ? 20 : 4); ++rep)
          {
            how = rep % 4 ? 3 + rep % 4 : 0; // two simds and one scalar: ambiguous in the library
            fill(x, dom); fill(y, dom); fill(z, dom);
            T s = farg<T>(rng, dom), t = farg<T>(rng, dom);
            const bool sx = how == 1 || how == 4 || how == 5, sy = how == 2 || how == 4 || how == 6, sz = how == 3 || how == 5 || how == 6;
            for (int i = 0; i < N; ++i)
              {
                if (sx) x[i] = s;
                if (sy) y[i] = t;
                if (sz) z[i] = sx ? t : s;
              }
            std::string out, ref = "[";
            const T zs = sx ? t : s;
            const int fault = tr::guarded([&] {
              switch (how)
              {
                case 0: out = lanes<T>(fun(x, y, z)); break;
                case 4: out = lanes<T>(fun(s, t, z)); break;
                case 5: out = lanes<T>(fun(s, y, zs)); break;
                case 6: out = lanes<T>(fun(x, t, zs)); break;
              }
            });
            for (int i = 0; i < N; ++i)
              ref += (i ? "," : "") + one<T>(sc(T(x[i]), T(y[i]), T(z[i])));
            emit(f, out, ref + "]", fault);
          }
        how = 0;
      }

#define F1(f, R, dom) f1<R>(#f, dom, [](const V& v) { return f(v); }, [](T v) -> R { return std::f(v); })
#define F2(f, R, dom) f2<R>(#f, dom, [](const auto& v, const auto& w) { return f(v, w); }, [](T v, T w) -> R { return std::f(v, w); })
#define F3(f, dom) f3(#f, dom, [](const auto& v, const auto& w, const auto& u) { return f(v, w, u); }, [](T v, T w, T u) -> T { return std::f(v, w, u); })

    void
    all()
    {
      F1(abs, T, 0); F1(isnan, bool, 0); F1(isfinite, bool, 0); F1(isinf, bool, 0); F1(isnormal, bool, 0); F1(signbit, bool, 0);
      F1(fpclassify, int, 0);
      F1(erf, T, 0); F1(erfc, T, 0); F1(tgamma, T, 1); F1(lgamma, T, 1); F1(sqrt, T, 0); F1(trunc, T, 0); F1(ceil, T, 0);
      F1(floor, T, 0); F1(round, T, 0); F1(lround, long, 1); F1(llround, long long, 1); F1(nearbyint, T, 0); F1(rint, T, 0);
      F1(lrint, long, 1); F1(llrint, long long, 1); F1(ilogb, int, 2);
      F1(sin, T, 1); F1(cos, T, 1); F1(tan, T, 1); F1(asin, T, 0); F1(acos, T, 0); F1(atan, T, 0); F1(sinh, T, 1); F1(cosh, T, 1);
      F1(tanh, T, 0); F1(asinh, T, 0); F1(acosh, T, 0); F1(atanh, T, 0); F1(log, T, 0); F1(log10, T, 0); F1(log1p, T, 0);
      F1(log2, T, 0); F1(logb, T, 0);
      F2(hypot, T, 0); F2(pow, T, 0); F2(fmod, T, 0); F2(remainder, T, 0); F2(nextafter, T, 0); F2(copysign, T, 0); F2(fdim, T, 0);
      F2(fmax, T, 0); F2(fmin, T, 0); F2(isgreater, bool, 0); F2(isgreaterequal, bool, 0); F2(isless, bool, 0); F2(islessequal, bool, 0);
      F2(islessgreater, bool, 0); F2(isunordered, bool, 0); F2(atan2, T, 0); F2(pow, T, 1);  F2(fmod, T, 1); F2(remainder, T, 1);
      F2(hypot, T, 1); F2(atan2, T, 1);
      F3(hypot, 1); F3(fma, 0); F3(fma, 1); F3(hypot, 0);
      // functions with output or integer parameters
      for (int rep = 0; rep < (tr::thorough() ? 10 : 3); ++rep)
        {
          {
            fill(x, 1); fill(y, 1);
            for (int i = 0; i < N; ++i)
              if (y[i] == 0) y[i] = 3;
            VI q = 77;
            std::string out, ref = "[", ref2 = "[";
            const int fault = tr::guarded([&] { out = lanes<T>(remquo(x, y, &q)); });
            for (int i = 0; i < N; ++i)
              {
                int qi = 0;
                ref += (i ? "," : "") + one<T>(std::remquo(T(x[i]), T(y[i]), &qi));
                ref2 += (i ? "," : "") + one<int>(qi);
              }
            emit("remquo", out, ref + "]", fault, lanes<int>(q), ref2 + "]");
          }
          {
            fill(x, 0);
            V q = T(77);
            std::string out, ref = "[", ref2 = "[";
            const int fault = tr::guarded([&] { out = lanes<T>(modf(x, &q)); });
            for (int i = 0; i < N; ++i)
              {
                T qi = 0;
                ref += (i ? "," : "") + one<T>(std::modf(T(x[i]), &qi));
                ref2 += (i ? "," : "") + one<T>(qi);
              }
            emit("modf", out, ref + "]", fault, lanes<T>(q), ref2 + "]");
          }
          {
            fill(x, 2);
            VI q = 77;
            std::string out, ref = "[", ref2 = "[";
            const int fault = tr::guarded([&] { out = lanes<T>(frexp(x, &q)); });
            for (int i = 0; i < N; ++i)
              {
                int qi = 0;
                ref += (i ? "," : "") + one<T>(std::frexp(T(x[i]), &qi));
                ref2 += (i ? "," : "") + one<int>(qi);
              }
            emit("frexp", out, ref + "]", fault, lanes<int>(q), ref2 + "]");
          }
          auto exps = [&](const char* f, auto iv, auto&& fun, auto&& sc) {
            fill(x, 0);
            for (int i = 0; i < N; ++i)
              iv[i] = int(rng.below(60)) - 30 + (rng.below(10) == 0 ? 1000 : 0);
            std::string out, ref = "[";
            const int fault = tr::guarded([&] { out = lanes<T>(fun(x, iv)); });
            for (int i = 0; i < N; ++i)
              ref += (i ? "," : "") + one<T>(sc(T(x[i]), iv[i]));
            emit(f, out, ref + "]", fault);
          };
          exps("scalbln", VL(0l), [](const V& v, const VL& e) { return scalbln(v, e); }, [](T v, long e) { return std::scalbln(v, e); });
          exps("scalbn", VI(0), [](const V& v, const VI& e) { return scalbn(v, e); }, [](T v, int e) { return std::scalbn(v, e); });
          exps("ldexp", VI(0), [](const V& v, const VI& e) { return ldexp(v, e); }, [](T v, int e) { return std::ldexp(v, e); });
        }
    }
  };

// abs of signed integers
template <typename T, typename A>
  void
  iabs()
  {
    using V = stdx::simd<T, A>;
    constexpr int N = V::size();
    tr::Rng rng(tr::seed() + N);
    for (int rep = 0; rep < 4; ++rep)
      {
        V x;
        for (int i = 0; i < N; ++i)
          {
            x[i] = edge<T>(rng);
            if (sizeof(T) >= 4 && x[i] == std::numeric_limits<T>::min())
              x[i] = -5;
          }
        std::string out, ref = "[";
        const int fault = tr::guarded([&] { out = lanes<T>(abs(x)); });
        for (int i = 0; i < N; ++i)
          ref += (i ? "," : "") + one<T>(T(std::abs(T(x[i]))));
        tr::Out o;
        o.str("f", "iabs").raw("ty", ty_json<T>()).num("N", N).raw("x", lanes<T>(x)).raw("y", lanes<T>(x))
         .raw("out", out.empty() ? "[]" : out).raw("ref", ref + "]").raw("out2", "[]").raw("ref2", "[]").num("fault", fault);
        o.emit(std::string(LABEL) + " iabs N=" + std::to_string(N));
      }
  }

int main()
{
  tr::install();
  for_widths<T>([]<typename U, typename A>() {
    if constexpr (std::is_floating_point_v<U>)
      {
        static Math<U, A> m;
        m.all();
      }
    else
      iabs<U, A>();
  });
}
