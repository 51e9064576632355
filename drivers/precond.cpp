// C18: calls with satisfied and violated preconditions, each in a forked child.
//   -DTYPE=<T> -DVIR_CHECK_PRECONDITIONS=<level>
#include "exec_common.h"
#include <functional>
#include <sys/wait.h>
using T = TYPE;
#ifdef VIR_CHECK_PRECONDITIONS_DEFAULT
#define LEVEL 3 // documented default
#else
#define LEVEL VIR_CHECK_PRECONDITIONS
#endif

struct Shared
{
  long calls, seen, res;
};
static Shared* sh;

static T* data;
static T* out;
static volatile long vn, vi;

// hides everything from constant propagation: violated preconditions must be found at run time
template <typename X>
  [[gnu::noipa]] X
  opaque(X x)
  { return x; }

struct Bits
{
  std::vector<int> v;
};

template <typename F>
  void
  child(const char* kind, long n, long S, bool pre, const std::vector<int>& bits, F&& f, const std::string& what)
  {
    if (not pre and LEVEL < 2)
      return; // undefined behaviour by definition of the level
    sh->calls = sh->seen = 0;
    sh->res = -1;
    std::fflush(stdout);
    int fd[2];
    if (pipe(fd))
      std::_Exit(70);
    const pid_t pid = fork();
    if (pid < 0)
      std::_Exit(70);
    if (pid == 0)
      {
        for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGABRT})
          std::signal(s, SIG_DFL);
        alarm(5); // a call that does not come back is neither a return nor a stop
        dup2(fd[1], 2);
        close(fd[0]);
        close(fd[1]);
        f();
        std::_Exit(0);
      }
    close(fd[1]);
    long msg = 0;
    char buf[512];
    for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) > 0;)
      msg += k;
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    static int crashes = 0;
    tr::Out o;
    o.str("kind", kind).num("level", LEVEL).num("n", std::min(n, 1000000l)).num("S", S).raw("bits", tr::list(bits))
     .str("end", WIFEXITED(st) ? "return" : WTERMSIG(st) == SIGILL || WTERMSIG(st) == SIGTRAP ? "trap"
                   : WTERMSIG(st) == SIGABRT ? "abort" : "crash")
     .num("msg", msg > 0).num("calls", sh->calls).num("seen", sh->seen).num("res", sh->res);
    o.emit(std::string(LABEL) + " " + what + " n=" + std::to_string(n) + " S=" + std::to_string(S));
    if (not WIFEXITED(st) and WTERMSIG(st) != SIGILL and WTERMSIG(st) != SIGTRAP and WTERMSIG(st) != SIGABRT and ++crashes == 5)
      { // enough evidence
        std::fflush(stdout);
        std::_Exit(0);
      }
  }

template <int S, int U>
  void
  algorithms()
  {
    constexpr int W = S > 0 ? S : int(vir::simdize<T>::size());
    constexpr auto pol = policy<S, U, match>();
    for (long n = 0; n <= std::min(3l * W + 1, 120 / long(sizeof(T))) ; ++n)
      {
        for (long i = 0; i < n + 64; ++i)
          data[i] = T(i % 100), out[i] = T(0);
        const bool pre = n % W == 0;
        const std::string w = "S=" + std::to_string(S) + " U=" + std::to_string(U);
        child("for_each", n, W, pre, {}, [&] {
          T* first = opaque(data);
          vir::for_each(pol, first, first + opaque(n), [](auto&... v) {
            ++sh->calls; sh->seen += (v.size() + ...);
            ((v += T(1)), ...);
          });
          sh->res = 0;
          for (long i = 0; i < n; ++i)
            sh->res += data[i] == T(i % 100 + 1);
        }, "for_each " + w);
        child("transform", n, W, pre, {}, [&] {
          T* first = opaque(data);
          vir::transform(pol, first, first + opaque(n), first, out, [](const auto& v, const auto& w) {
            ++sh->calls; sh->seen += v.size();
            return v + w;
          });
          sh->res = 0;
          for (long i = 0; i < n; ++i)
            sh->res += out[i] == T(2 * (i % 100));
        }, "transform " + w);
        child("transform1", n, W, pre, {}, [&] {
          T* first = opaque(data);
          vir::transform(pol, std::span<T>(first, opaque(n)), *reinterpret_cast<std::array<T, 200>*>(out), [](const auto& v) {
            ++sh->calls; sh->seen += v.size();
            return v + T(1);
          });
          sh->res = 0;
          for (long i = 0; i < n; ++i)
            sh->res += out[i] == T(i % 100 + 1);
        }, "transform1 " + w);
        child("reduce", n, W, pre, {}, [&] {
          T* first = opaque(data);
          for (long i = 0; i < n; ++i)
            first[i] = T(i % 3 == 1);
          sh->res = long(vir::transform_reduce(pol, first, first + opaque(n), T(0), std::plus<>(), [](const auto& v) {
                           ++sh->calls; sh->seen += v.size(); return v; }));
        }, "transform_reduce " + w);
        child("reduce0", n, W, pre, {}, [&] {
          T* first = opaque(data);
          for (long i = 0; i < n; ++i)
            first[i] = T(i % 3 == 1);
          sh->res = long(vir::reduce(pol, first, first + opaque(n), T(0)));
        }, "reduce " + w);
        child("count_if", n, W, pre, {}, [&] {
          T* first = opaque(data);
          sh->res = vir::count_if(pol, std::span<const T>(first, opaque(n)), [](const auto& v) {
                      ++sh->calls; sh->seen += v.size(); return v == v; });
        }, "count_if " + w);
      }
  }

#ifdef VIR_DISABLE_STDX_SIMD
template <typename A>
  void
  simds()
  {
    using V = stdx::simd<T, A>;
    using K = stdx::simd_mask<T, A>;
    constexpr int N = V::size();
    V v([](int i) { return T(i * 7 % 100 + 1); });
    K k = v == v;
    for (int i = 0; i < N; i += 3)
      k[i] = false;
    for (long i : {0l, 1l, 2l, 3l, 4l, N - 1l, N + 0l, N + 1l, 1000000l})
      {
        const bool pre = i < N;
        const std::string w = "N=" + std::to_string(N);
        child("sub", i, N, pre, {}, [&] { V x = opaque(v); sh->res = long(T(x[opaque(i)])); }, "subscript " + w);
        child("csub", i, N, pre, {}, [&] { const V x = opaque(v); sh->res = long(x[opaque(i)]); }, "const subscript " + w);
        child("set", i, N, pre, {}, [&] {
          V x = opaque(v); x[opaque(i)] = T(3); sh->res = 0;
          for (int j = 0; j < N; ++j)
            sh->res += x[j] == v[j];
          sh->res += i < N && v[i] == T(3) ? 0 : 0;
        }, "subscript assign " + w);
        child("msub", i, N, pre, {}, [&] { K x = opaque(k); sh->res = bool(x[opaque(i)]); }, "mask subscript " + w);
        child("cmsub", i, N, pre, {}, [&] { const K x = opaque(k); sh->res = x[opaque(i)]; }, "const mask subscript " + w);
      }
    for (int pat = 0; pat < std::min(1 << std::min(N, 6), 64); ++pat)
      {
        K m(false);
        std::vector<int> bits;
        for (int i = 0; i < N; ++i)
          {
            m[i] = (pat >> (i % 6)) & 1 && (i < 6 || pat % 5 == 0);
            bits.push_back(bool(m[i]));
          }
        const bool pre = any_of(m);
        child("ffs", 0, N, pre, bits, [&] { sh->res = find_first_set(opaque(m)); }, "find_first_set");
        child("fls", 0, N, pre, bits, [&] { sh->res = find_last_set(opaque(m)); }, "find_last_set");
      }
  }
#endif

int main()
{
  tr::install();
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  static tr::Arena a(4), b(4);
  data = reinterpret_cast<T*>(a.base);
  out = reinterpret_cast<T*>(b.base);
  algorithms<0, 0>(); algorithms<0, 2>(); algorithms<3, 0>(); algorithms<4, 3>(); algorithms<1, 0>(); algorithms<7, 2>();
#ifdef VIR_DISABLE_STDX_SIMD
  simds<stdx::simd_abi::scalar>(); simds<stdx::simd_abi::fixed_size<1>>(); simds<stdx::simd_abi::fixed_size<4>>();
  simds<stdx::simd_abi::fixed_size<5>>(); simds<stdx::simd_abi::fixed_size<16>>();
#endif
}
