// Recording support shared by all drivers. One line per record on stdout:  label TAB json
// The drivers only use the public API of vir-simd and only *record*; every judgement is made by
// TLC against the specification in ../spec.
#pragma once
#include <algorithm>
#include <array>
#include <climits>
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>

namespace tr
{
  inline std::uint64_t seed()
  {
    const char* s = std::getenv("VERIF_SEED");
    return s ? std::strtoull(s, nullptr, 10) : 1;
  }
  inline bool thorough()
  {
    const char* s = std::getenv("VERIF_TIER");
    return s && std::string(s) == "thorough";
  }

  struct Rng
  {
    std::uint64_t s;
    explicit Rng(std::uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) {}
    std::uint64_t next()
    {
      s += 0x9E3779B97F4A7C15ull;
      std::uint64_t z = s;
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      return z ^ (z >> 31);
    }
    std::uint64_t below(std::uint64_t n) { return next() % n; }
  };

  // ---------------------------------------------------------------- JSON output
  struct Out
  {
    std::string b;
    bool first = true;
    void key(const char* k)
    {
      b += first ? "{\"" : ",\"";
      first = false;
      b += k;
      b += "\":";
    }
    Out& num(const char* k, long long v) { key(k); b += std::to_string(v); return *this; }
    Out& str(const char* k, const std::string& v) { key(k); b += '"'; b += v; b += '"'; return *this; }
    Out& raw(const char* k, const std::string& v) { key(k); b += v; return *this; }
    void emit(const std::string& label)
    {
      b += '}';
      std::fputs(label.c_str(), stdout);
      std::fputc('\t', stdout);
      std::fputs(b.c_str(), stdout);
      std::fputc('\n', stdout);
    }
  };

  template <typename C>
    std::string list(const C& c)
    {
      std::string r = "[";
      bool f = true;
      for (auto x : c)
        {
          if (!f)
            r += ',';
          f = false;
          r += std::to_string(static_cast<long long>(x));
        }
      return r + "]";
    }

  // run-length encoding: [[value, count], ...]
  template <typename C>
    std::string rle(const C& c)
    {
      std::string r = "[";
      std::size_t i = 0, n = c.size();
      while (i < n)
        {
          std::size_t j = i;
          while (j < n && c[j] == c[i])
            ++j;
          if (i)
            r += ',';
          r += "[" + std::to_string(static_cast<long long>(c[i])) + "," + std::to_string(j - i) + "]";
          i = j;
        }
      return r + "]";
    }

  // lane images: every lane as little-endian 16-bit limbs of its object representation
  // (1-byte types: one limb 0..255)
  template <typename T>
    inline constexpr int value_bytes = std::is_same_v<T, long double> ? 10 : sizeof(T);

  template <typename T>
    std::string limbs(T x)
    {
      unsigned char u[sizeof(T)] = {};
      if constexpr (std::is_floating_point_v<T>)
        if (x != x)
          return "[-1]"; // any NaN
      std::memcpy(u, &x, sizeof(T));
      if constexpr (value_bytes<T> == 1)
        return "[" + std::to_string(u[0]) + "]";
      std::string r = "[";
      for (int i = 0; i < value_bytes<T>; i += 2)
        {
          if (i)
            r += ',';
          r += std::to_string(u[i] + 256 * u[i + 1]);
        }
      return r + "]";
    }

  // ---------------------------------------------------------------- guarded memory and faults
  inline sigjmp_buf jump;
  inline volatile sig_atomic_t armed = 0;
  inline void on_fault(int sig)
  {
    if (armed)
      {
        armed = 0;
        siglongjmp(jump, sig);
      }
    std::signal(sig, SIG_DFL);
    std::raise(sig);
  }
  inline void install()
  {
    static char stack[1 << 16];
    stack_t ss{};
    ss.ss_sp = stack;
    ss.ss_size = sizeof stack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = on_fault;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGABRT})
      sigaction(s, &sa, nullptr);
    std::setvbuf(stdout, nullptr, _IOFBF, 1 << 20);
  }

  // runs f; returns 0, or the number of the signal that interrupted it
  template <typename F>
    [[gnu::noinline]] int guarded(F&& f)
    {
      int s = sigsetjmp(jump, 1);
      if (s == 0)
        {
          armed = 1;
          f();
        }
      armed = 0;
      return s;
    }

  // A region of whole pages between two inaccessible pages.
  struct Arena
  {
    static constexpr std::size_t page = 4096;
    unsigned char* base;
    std::size_t bytes;
    explicit Arena(std::size_t pages) : bytes(pages * page)
    {
      void* p = mmap(nullptr, bytes + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (p == MAP_FAILED || mprotect(static_cast<char*>(p) + page, bytes, PROT_READ | PROT_WRITE))
        {
          std::perror("mmap");
          std::_Exit(70);
        }
      base = static_cast<unsigned char*>(p) + page;
    }
    unsigned char* end() const { return base + bytes; }
    void fill(unsigned char c) { std::memset(base, c, bytes); }
    // number of bytes outside [lo, hi) that differ from c
    long changed(unsigned char c, const void* lo, const void* hi) const
    {
      long r = 0;
      for (const unsigned char* p = base; p < static_cast<const unsigned char*>(lo); ++p)
        r += *p != c;
      for (const unsigned char* p = static_cast<const unsigned char*>(hi); p < base + bytes; ++p)
        r += *p != c;
      return r;
    }
  };
}
