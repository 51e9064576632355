// C06: executions of the algorithms inside constant expressions, and of the very same functions at
// run time.   -DTYPE=<element type> -DSET=..
#include "exec_common.h"
#include <functional>
#include <ranges>
using T = TYPE;

constexpr int MaxCalls = 100;
struct CLog
{
  long d[MaxCalls][4] = {};
  int n = 0;
  constexpr void call(long args, long w, long p0, long p1 = -9)
  {
    if (n < MaxCalls)
      {
        d[n][0] = args; d[n][1] = w; d[n][2] = p0; d[n][3] = p1;
        ++n;
      }
  }
  std::string json() const
  {
    std::string r = "[";
    for (int i = 0; i < n; ++i)
      r += (i ? ",[" : "[") + std::to_string(d[i][0]) + "," + std::to_string(d[i][1]) + "," + std::to_string(d[i][2])
             + (d[i][3] != -9 ? "," + std::to_string(d[i][3]) : std::string()) + "]";
    return r + "]";
  }
};

// result of one execution; data[0] and data[N + 1] are sentinels
template <int N>
  struct Res
  {
    CLog log;
    long delta[N + 1] = {};
    long oob = 0, inchg = 0, ret = -1;
  };

constexpr long D(long s, long i) { const long k = (i + 5 * s) % 251; return k * k * k % 251 + 1; }
constexpr long Sentinel = 77;

template <typename X, typename V>
  constexpr long
  cfirst(const V& v)
  {
    const long p = static_cast<long>(X(v[0]));
    for (int i = 1; i < int(V::size()); ++i)
      if (static_cast<long>(X(v[i])) != p + i)
        return -1;
    return p;
  }

template <int N, int S, int U, Pol P, int Form>
  constexpr Res<N>
  do_for_each()
  {
    Res<N> r;
    T data[N + 2] = {};
    data[0] = data[N + 1] = T(Sentinel);
    for (int i = 0; i < N; ++i)
      data[i + 1] = T(i);
    constexpr auto pol = policy<S, U, P>();
    auto see = [&r](const auto&... vs) {
      long p0 = -1, k = 0;
      ((k == 0 ? void(p0 = cfirst<T>(vs))
               : void(cfirst<T>(vs) == p0 + k * long(vs.size()) ? 0 : (p0 = -1)), ++k), ...);
      r.log.call(sizeof...(vs), std::max({long(vs.size())...}), p0);
    };
    if constexpr (Form == 0)
      vir::for_each(pol, data + 1, data + 1 + N, [&](auto&... vs) { see(vs...); ((vs += T(1)), ...); });
    else if constexpr (Form == 1)
      vir::for_each(pol, std::span<T>(data + 1, N), [&](auto... vs) { see(vs...); ((vs += T(1)), ...); });
    else if constexpr (Form == 2)
      std::for_each(pol, data + 1, data + 1 + N, [&](const auto&... vs) { see(vs...); });
    else
      vir::for_each(pol, std::span<T>(data + 1, N), [&](auto&... vs) { see(vs...); ((vs += T(1)), ...); });
    r.oob = (data[0] != T(Sentinel)) + (data[N + 1] != T(Sentinel));
    for (int i = 0; i < N; ++i)
      r.delta[i] = static_cast<long>(data[i + 1]) - i;
    return r;
  }

template <int N, int S, int U, Pol P, int Form>
  constexpr Res<N>
  do_transform()
  {
    Res<N> r;
    T in[N + 1] = {}, in2[N + 1] = {}, out[N + 2] = {};
    out[0] = out[N + 1] = T(Sentinel);
    for (int i = 0; i < N; ++i)
      in[i] = in2[i] = T(i);
    constexpr auto pol = policy<S, U, P>();
    auto op1 = [&r](const auto& v) { r.log.call(1, v.size(), cfirst<T>(v)); return v + T(1); };
    auto op2 = [&r](const auto& v, const auto& w) { r.log.call(1, v.size(), cfirst<T>(v), cfirst<T>(w)); return w + T(1); };
    if constexpr (Form == 0)
      r.ret = vir::transform(pol, in, in + N, out + 1, op1) - (out + 1);
    else if constexpr (Form == 1)
      r.ret = vir::transform(pol, in, in + N, static_cast<const T*>(in2), out + 1, op2) - (out + 1);
#if __cpp_lib_ranges_zip >= 202110L
    else if constexpr (Form == 2 && N % 2 == 1)
      {
        std::span<T> o(out + 1, N);
        std::span<T> s1(in, N), s2(in2, N);
        r.ret = vir::transform(pol, std::views::zip(s1, s2), o, [&](const auto& t) { const auto& [x, y] = t; return op2(x, y); }) - o.begin();
      }
#endif
    else if constexpr (Form == 2)
      r.ret = std::transform(pol, in, in + N, out + 1, op1) - (out + 1);
    else
      {
        std::span<T> o(out + 1, N);
        r.ret = vir::transform(pol, std::span<const T>(in, N), std::span<const T>(in2, N), o, op2) - o.begin();
      }
    r.oob = (out[0] != T(Sentinel)) + (out[N + 1] != T(Sentinel));
    for (int i = 0; i < N; ++i)
      {
        r.delta[i] = static_cast<long>(out[i + 1]) - i;
        r.inchg += (in[i] != T(i)) + (in2[i] != T(i));
      }
    return r;
  }

inline constexpr int dseed = 3;

template <int N, int S, int U, Pol P, int Form>
  constexpr Res<N>
  do_reduce()
  {
    Res<N> r;
    T in[N + 1] = {}, in2[N + 1] = {};
    for (int i = 0; i < N; ++i)
      {
        in[i] = T(D(dseed, i));
        in2[i] = T(D(dseed + 1, i));
      }
    constexpr auto pol = policy<S, U, P>();
    auto pos = [&](const auto& v) -> long {
      for (long p = 0; p + long(v.size()) <= N; ++p)
        {
          bool eq = true;
          for (int i = 0; i < int(v.size()); ++i)
            eq = eq && T(v[i]) == in[p + i];
          if (eq)
            return p;
        }
      return -1;
    };
    auto t1 = [&](const auto& v) { r.log.call(1, v.size(), pos(v)); return v + T(2); };
    auto t2 = [&](const auto& v, const auto& w) {
      const long p = pos(v);
      bool same = true;
      for (int i = 0; i < int(v.size()); ++i)
        same = same && p >= 0 && T(w[i]) == in2[p + i];
      r.log.call(1, v.size(), p, same ? p : -1);
      return v * T(3) - w + T(251);
    };
    if constexpr (Form == 0)
      r.ret = long(vir::reduce(pol, in, in + N, T(5)));
    else if constexpr (Form == 1)
      r.ret = long(vir::transform_reduce(pol, in, in + N, T(5), std::plus<>(), t1));
    else if constexpr (Form == 2)
      r.ret = long(vir::transform_reduce(pol, std::span<const T>(in, N), std::span<const T>(in2, N), T(5), std::plus<>(), t2));
    else
      r.ret = long(std::transform_reduce(pol, in, in + N, static_cast<const T*>(in2), T(5), std::plus<>(), t2));
    for (int i = 0; i < N; ++i)
      r.inchg += (in[i] != T(D(dseed, i))) + (in2[i] != T(D(dseed + 1, i)));
    return r;
  }

template <int N, int S, int U, Pol P, int Form>
  constexpr Res<N>
  do_count()
  {
    Res<N> r;
    T in[N + 1] = {};
    for (int i = 0; i < N; ++i)
      in[i] = T(D(dseed, i));
    constexpr auto pol = policy<S, U, P>();
    auto see = [&](const auto& v) {
      long at = -1;
      for (long p = 0; at < 0 && p + long(v.size()) <= N; ++p)
        {
          bool eq = true;
          for (int i = 0; i < int(v.size()); ++i)
            eq = eq && T(v[i]) == in[p + i];
          if (eq)
            at = p;
        }
      r.log.call(1, v.size(), at);
    };
    auto gt = [&](const auto& v) { see(v); return v > T(90); };
    auto all = [&](const auto& v) { see(v); return v == v; };
    if constexpr (Form == 0)
      r.ret = vir::count_if(pol, in, in + N, gt);
    else if constexpr (Form == 1)
      r.ret = vir::count_if(pol, std::span<const T>(in, N), gt);
    else if constexpr (Form == 2)
      r.ret = std::count_if(pol, in, in + N, gt);
    else
      r.ret = vir::count_if(pol, in, in + N, all);
    for (int i = 0; i < N; ++i)
      r.inchg += in[i] != T(D(dseed, i));
    return r;
  }

template <int N, int S, int U, Pol P, int Alg, int Form>
  constexpr Res<N>
  execute()
  {
    if constexpr (Alg == 0) return do_for_each<N, S, U, P, Form>();
    else if constexpr (Alg == 1) return do_transform<N, S, U, P, Form>();
    else if constexpr (Alg == 2) return do_reduce<N, S, U, P, Form>();
    else return do_count<N, S, U, P, Form>();
  }

template <int N, int S, int U, Pol P, int Alg, int Form>
  void
  emit(const Res<N>& r, int fault, const char* when)
  {
    constexpr int W = S > 0 ? S : int(vir::simdize<T>::size());
    static const char* names[] = {"for_each", "transform", "reduce", "count_if"};
    const bool logged = not (Alg == 2 && Form == 0);
    tr::Out o;
    o.str("alg", names[Alg]).num("n", N).num("S", W).num("U", U > 1 ? U : 1).num("sz", sizeof(T)).num("ma", mem_align<vir::simdize<T, W>>())
     .num("off", 0).str("pol", pol_name(P)).num("logged", logged).raw("calls", logged ? r.log.json() : "[]");
    std::vector<long> delta(r.delta, r.delta + N);
    if constexpr (Alg == 0)
      o.num("wb", Form == 0 || Form == 3);
    if constexpr (Alg < 2)
      o.raw("delta", tr::rle(delta));
    else
      o.num("seed", dseed).num("init", 5).str("rop", "plus").str("tf", Form == 0 ? "id" : Form == 1 ? "add2" : "suba").num("arg", 90)
       .str("pred", Form == 3 ? "all" : "gt")
       .num("mod", std::is_integral_v<T> && std::is_unsigned_v<T> && sizeof(T) < 4 ? 1l << (8 * sizeof(T)) : 0);
    o.num("oob", r.oob).num("inchg", r.inchg).num("fault", fault).num("ret", r.ret);
    o.emit(std::string(LABEL) + " " + when + " " + names[Alg] + " form=" + std::to_string(Form) + " N=" + std::to_string(N) + " S=" + std::to_string(S)
             + " U=" + std::to_string(U) + " " + pol_name(P));
  }

template <int N, int S, int U, Pol P, int Alg, int Form>
  void
  both()
  {
    static constexpr Res<N> ce = execute<N, S, U, P, Alg, Form>();
    emit<N, S, U, P, Alg, Form>(ce, 0, "constant");
    static Res<N> rt;
    rt = {};
    const int fault = tr::guarded([&] { rt = execute<N, S, U, P, Alg, Form>(); });
    emit<N, S, U, P, Alg, Form>(rt, fault, "runtime");
  }

template <int Alg, int S, int U, Pol P>
  void
  lengths()
  {
    constexpr int W = S > 0 ? S : int(vir::simdize<T>::size());
    constexpr int UU = U > 1 ? U : 1;
    if constexpr (P == match)
      [&]<int... Is>(std::integer_sequence<int, Is...>) {
        (both<Is * W, S, U, P, Alg, (Is + Alg) % 4>(), ...);
      }(std::make_integer_sequence<int, 4>());
    else
      {
        [&]<int... Is>(std::integer_sequence<int, Is...>) {
          (both<Is, S, U, P, Alg, (Is + Alg + S + U) % 4>(), ...);
        }(std::make_integer_sequence<int, std::min(2 * W + 2, 22)>());
        both<W * UU + 1, S, U, P, Alg, 1>();
        both<W * UU, S, U, P, Alg, 0>();
        both<2 * W * UU + W - 1, S, U, P, Alg, 2>();
        both<3 * W - 1, S, U, P, Alg, 3>();
      }
  }

int main()
{
  tr::install();
#if SET == 0
  lengths<ALG, 0, 0, none>(); lengths<ALG, 0, 2, aligned>(); lengths<ALG, 0, 0, autop>(); lengths<ALG, 0, 3, match>();
#else
  lengths<ALG, 1, 0, none>(); lengths<ALG, 3, 2, none>(); lengths<ALG, 4, 0, aligned>(); lengths<ALG, 5, 0, autop>(); lengths<ALG, 8, 3, none>();
  lengths<ALG, 6, 0, match>();
#endif
}
