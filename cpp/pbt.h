// Property-based testing engine: every random decision is one entry of a recorded choice sequence. A failing
// sequence is shrunk (delete, zero, lower entries) by re-running the property in forked children and becomes the
// replay file. Crashes, sanitizer reports, leaks, escaped exceptions and CPU-time overruns are failures too.
#pragma once
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace pbt {
using u64 = std::uint64_t;

struct Fail {
  std::string msg;
};
struct Overrun {};

struct Shared; // shared-memory record of the running case

class Case {
public:
  /// the only source of randomness: a value in [0, n)
  u64 draw(u64 n);
  u64 draw64(); // any 64 bit value

  // --- helpers; the smallest choices are the simplest values
  u64 below(u64 n) { return n <= 1 ? 0 : draw(n); }
  long range(long lo, long hi) { return lo + long(below(u64(hi - lo) + 1)); }
  bool flip() { return draw(2) == 1; }
  /// true with probability num/den
  bool chance(u64 num, u64 den) { return draw(den) >= den - num; }
  size_t weighted(std::initializer_list<unsigned> w) {
    u64 tot = 0;
    for (auto x : w) tot += x;
    u64 r = draw(tot);
    size_t i = 0;
    for (auto x : w) {
      if (r < x) return i;
      r -= x;
      ++i;
    }
    return i - 1;
  }
  template <typename T>
  const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  /// a number of things, geometric-ish, up to max
  size_t count(size_t max) {
    switch (draw(8)) {
    case 0:
      return 0;
    case 1:
    case 2:
      return std::min<size_t>(1 + below(2), max);
    case 7:
      return below(max + 1);
    default:
      return below(std::min<size_t>(max, 6) + 1);
    }
  }
  /// mostly like count(usual), now and then many
  size_t some(size_t usual, size_t many = 300, u64 oneIn = 80) { return chance(1, oneIn) ? usual + below(many) : count(usual); }
  /// interesting bit patterns of the given width in bytes
  u64 bits(int width);
  /// bit patterns for IEEE values (width 4 or 8); finite: never NaN/inf
  u64 floatBits(int width, bool finite);
  double finiteDouble();
  std::string ident(size_t maxLen);
  std::string text(size_t maxLen); // arbitrary bytes except NUL-heavy; may be empty

  // --- reporting
  void label(const std::string& l) { ++m_labels[l]; }
  void nontrivial() { m_nontrivial = true; }
  bool logging() const { return m_logging; }
  template <typename... T>
  void log(const T&... t) {
    if (!m_logging) return;
    std::ostringstream o;
    (o << ... << t);
    addLog(o.str());
  }
  [[noreturn]] void fail(const std::string& m) { throw Fail{m}; }
  int size() const { return m_size; } // 1..100
  u64 index() const { return m_index; }

  // --- engine side
  void addLog(const std::string& s);
  bool m_logging{false};
  bool m_replay{false};
  std::vector<u64> m_in;
  size_t m_pos{0};
  u64 m_rng[2]{};
  u64 m_index{0};
  int m_size{100};
  bool m_nontrivial{false};
  std::map<std::string, u64> m_labels;
  std::string m_log;
  Shared* m_shm{nullptr};
  u64 next64();
};

struct Prop {
  const char* name;
  void (*fn)(Case&);
  bool leakCheck;
};
std::vector<Prop>& props();
struct Reg {
  Reg(const char* n, void (*f)(Case&), bool leak) { props().push_back({n, f, leak}); }
};
std::string demangle(const char*);
} // namespace pbt

#define PBT_PROP(name)                                                                                                 \
  static void name(pbt::Case&);                                                                                        \
  static pbt::Reg reg_##name(#name, &name, false);                                                                     \
  static void name([[maybe_unused]] pbt::Case& c)
/// as PBT_PROP, and the property must not retain memory after it returned
#define PBT_PROP_NOLEAK(name)                                                                                          \
  static void name(pbt::Case&);                                                                                        \
  static pbt::Reg reg_##name(#name, &name, true);                                                                      \
  static void name([[maybe_unused]] pbt::Case& c)

#define REQUIRE(cond, ...)                                                                                             \
  do {                                                                                                                 \
    if (!(cond)) {                                                                                                     \
      std::ostringstream o_;                                                                                           \
      o_ << __VA_ARGS__ << "  [" #cond "]";                                                                            \
      throw pbt::Fail{o_.str()};                                                                                       \
    }                                                                                                                  \
  } while (0)
/// the statement must throw exactly this exception type (or a type derived from it)
#define REQUIRE_THROWS_AS(stmt, E, ...)                                                                                \
  do {                                                                                                                 \
    bool ok_ = false;                                                                                                  \
    std::string got_ = "nothing";                                                                                      \
    try {                                                                                                              \
      stmt;                                                                                                            \
    } catch (const E&) {                                                                                               \
      ok_ = true;                                                                                                      \
    } catch (const std::exception& e_) {                                                                               \
      got_ = std::string("another exception: ") + e_.what();                                                           \
    }                                                                                                                  \
    if (!ok_) {                                                                                                        \
      std::ostringstream o_;                                                                                           \
      o_ << __VA_ARGS__ << "  [" #stmt " should throw " #E ", but threw " << got_ << "]";                              \
      throw pbt::Fail{o_.str()};                                                                                       \
    }                                                                                                                  \
  } while (0)
