// C18: outcome of compiling calls whose precondition is (not) known to hold at compile time.
//   -DLVL=<level>     The program runs the compiler on snippets and records what it says.
#include "trace.h"
#include <sys/wait.h>
#include <atomic>
#include <thread>

static const char* prefix = R"(
#include <vir/simd_execution.h>
#include <array>
#include <functional>
namespace stdx = vir::stdx;
using V = stdx::fixed_size_simd<int, 4>;
inline constexpr auto pol = vir::execution::simd.prefer_size<4>().assume_matching_size();
)";

struct Snippet
{
  const char* name;
  int pre;        // does the precondition hold?
  int constant;   // evaluated in a constant expression?
  const char* code;
};

static const Snippet snippets[] = {
  {"for_each ok", 1, 0, "void f(int* a) { vir::for_each(pol, a, a + 8, [](auto& v) { v += 1; }); }"},
  {"for_each bad", 0, 0, "void f(int* a) { vir::for_each(pol, a, a + 7, [](auto& v) { v += 1; }); }"},
  {"for_each unknown", 1, 0, "void f(int* a, int n) { vir::for_each(pol, a, a + n, [](auto& v) { v += 1; }); }"},
  {"transform ok", 1, 0, "void f(int* a) { vir::transform(pol, a, a + 8, a, [](auto v) { return v + 1; }); }"},
  {"transform bad", 0, 0, "void f(int* a) { vir::transform(pol, a, a + 7, a, [](auto v) { return v + 1; }); }"},
  {"reduce ok", 1, 0, "int f(int* a) { return vir::reduce(pol, a, a + 8, 0); }"},
  {"reduce bad", 0, 0, "int f(int* a) { return vir::reduce(pol, a, a + 9, 0); }"},
  {"count_if bad", 0, 0, "int f(int* a) { return vir::count_if(pol, a, a + 5, [](auto v) { return v == 1; }); }"},
  {"count_if ok", 1, 0, "int f(int* a) { return vir::count_if(pol, a, a + 12, [](auto v) { return v == 1; }); }"},
  {"constant ok", 1, 1, "constexpr int f() { std::array<int, 8> a{1, 2, 3}; return vir::reduce(pol, a, 0); } static_assert(f() == 6);"},
  {"constant bad", 0, 1, "constexpr int f() { std::array<int, 7> a{1, 2, 3}; return vir::reduce(pol, a, 0); } static_assert(f() == 6);"},
#ifdef VIR_DISABLE_STDX_SIMD
  {"subscript ok", 1, 0, "int f(V v) { return v[3]; }"},
  {"subscript bad", 0, 0, "int f(V v) { return v[4]; }"},
  {"const subscript bad", 0, 0, "int f(const V v) { return v[4]; }"},
  {"mask subscript ok", 1, 0, "bool f(const V::mask_type v) { return v[3]; }"},
  {"mask subscript bad", 0, 0, "bool f(const V::mask_type v) { return v[4]; }"},
  {"find_first_set ok", 1, 0, "int f() { return find_first_set(V::mask_type(true)); }"},
  {"constant subscript ok", 1, 1, "static_assert(V(7)[3] == 7);"},
  {"constant subscript bad", 0, 1, "static_assert(V(7)[4] == 7);"},
#endif
};

int main()
{
  char dir[] = "/tmp/vpctXXXXXX";
  if (not mkdtemp(dir))
    return 70;
  constexpr int n = sizeof(snippets) / sizeof(snippets[0]);
  std::vector<std::thread> th;
  std::vector<std::string> lines(n);
  for (int i = 0; i < n; ++i)
    {
      const std::string base = std::string(dir) + "/s" + std::to_string(i);
      std::FILE* f = std::fopen((base + ".cpp").c_str(), "w");
      std::fputs(prefix, f);
      std::fputs(snippets[i].code, f);
      std::fputs("\n", f);
      std::fclose(f);
    }
  std::atomic<int> next = 0;
  for (int t = 0; t < 4; ++t)
    th.emplace_back([&] {
      for (int i; (i = next++) < n;)
        {
          const std::string base = std::string(dir) + "/s" + std::to_string(i);
          const std::string cmd = "g++ -std=gnu++23 -O2 -march=x86-64-v2 -I/repo "
#ifdef VIR_DISABLE_STDX_SIMD
            "-DVIR_DISABLE_STDX_SIMD "
#endif
            "-DVIR_CHECK_PRECONDITIONS=" + std::to_string(LVL) + " -c " + base + ".cpp -o " + base + ".o > " + base + ".log 2>&1";
          const int rc = std::system(cmd.c_str());
          std::string text;
          if (std::FILE* f = std::fopen((base + ".log").c_str(), "r"))
            {
              char buf[4096];
              for (std::size_t k; (k = std::fread(buf, 1, sizeof buf, f)) > 0;)
                text.append(buf, k);
              std::fclose(f);
            }
          const bool diag = text.find("precondition failure") != std::string::npos;
          tr::Out o;
          o.str("kind", "compile").num("level", LVL).num("pre", snippets[i].pre).num("constant", snippets[i].constant)
           .num("compiled", rc == 0).num("diag", diag);
          o.b += '}';
          lines[i] = std::string(LABEL) + " " + snippets[i].name + "\t" + o.b;
        }
    });
  for (auto& t : th)
    t.join();
  for (auto& l : lines)
    std::puts(l.c_str());
  (void) !std::system(("rm -rf " + std::string(dir)).c_str());
}
