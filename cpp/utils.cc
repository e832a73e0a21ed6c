// Plain utilities against their obvious definitions: ID tables (C10), versions (C20), text and type helpers (C21)
#include "pbt.h"
#include "podio/CollectionIDTable.h"
#include "podio/podioVersion.h"
#include "podio/utilities/Glob.h"
#include "podio/utilities/MiscHelpers.h"
#include "podio/utilities/StaticConcatenate.h"
#include "podio/utilities/StringKeyMap.h"
#include "podio/utilities/TypeHelpers.h"
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fnmatch.h>
#include <fstream>
#include <map>
#include <thread>
#include <unistd.h>
using pbt::Case;
using pbt::u64;

// ---------------------------------------------------------------- C10
namespace {
std::string toHex(const std::string& s) {
  std::string r = "x";
  for (unsigned char ch : s) {
    char b[3];
    std::snprintf(b, sizeof b, "%02x", ch);
    r += b;
  }
  return r;
}
/// Another process: prints the IDs of the names it is given and ends
struct OtherProcess {
  OtherProcess() {
    const char* in = std::getenv("VERIF_IDS_OF");
    if (!in) return;
    podio::CollectionIDTable t;
    std::string s(in), out;
    size_t p = 0;
    while (p < s.size()) {
      const size_t e = std::min(s.find(',', p), s.size());
      std::string name;
      for (size_t i = p + 1; i + 1 < e + 0 || i + 2 <= e; i += 2) name += char(std::stoi(s.substr(i, 2), nullptr, 16));
      out += std::to_string(t.add(name)) + ",";
      p = e + 1;
    }
    std::fputs(out.c_str(), stdout);
    std::fflush(stdout);
    _exit(0);
  }
} otherProcess;
uint32_t hashOf(const std::string& n) {
  podio::CollectionIDTable t;
  return t.add(n);
}
/// MurmurHash3_x86_32 with seed 0, written down again
uint32_t referenceHash(const std::string& s) {
  auto rot = [](uint32_t x, int r) { return (x << r) | (x >> (32 - r)); };
  uint32_t h = 0;
  auto mix = [&](uint32_t k) { return rot(k * 0xcc9e2d51u, 15) * 0x1b873593u; };
  auto at = [&](size_t i) { return uint32_t((unsigned char)s[i]); };
  size_t i = 0;
  for (; i + 4 <= s.size(); i += 4) h = rot(h ^ mix(at(i) | at(i + 1) << 8 | at(i + 2) << 16 | at(i + 3) << 24), 13) * 5 + 0xe6546b64u;
  uint32_t k = 0;
  for (size_t j = s.size(); j-- > i;) k = k << 8 | at(j);
  if (i < s.size()) h ^= mix(k);
  h ^= uint32_t(s.size());
  h = (h ^ h >> 16) * 0x85ebca6bu;
  h = (h ^ h >> 13) * 0xc2b2ae35u;
  return h ^ h >> 16;
}
/// a name that is nearly the same
std::string similarName(Case& c, std::string n) {
  switch (c.draw(5)) {
  case 0:
    return n + c.text(2);
  case 1:
    return c.text(2) + n;
  case 2:
    if (!n.empty()) n[c.below(n.size())] ^= char(1 << c.below(8));
    return n;
  case 3:
    if (!n.empty()) n.erase(c.below(n.size()), 1);
    return n;
  default:
    if (n.size() > 1) std::swap(n[c.below(n.size())], n[c.below(n.size())]);
    return n;
  }
}
std::string genName(Case& c) {
  switch (c.draw(7)) {
  case 0:
    return c.text(12);
  case 1:
    return c.ident(3) + "Collection";
  case 3: // long ones with a common beginning
    return c.ident(2) + std::string(c.chance(1, 8) ? c.below(3000) : c.below(200), 'x') + c.text(2);
  case 2:
    return std::string(c.below(9), 'a') + c.text(2);
  default:
    return c.ident(8);
  }
}
using Entries = std::vector<std::pair<std::string, uint32_t>>;
void checkTable(Case& c, const podio::CollectionIDTable& t, const Entries& m) {
  std::vector<std::string> names;
  std::vector<uint32_t> ids;
  for (auto& [n, i] : m) names.push_back(n), ids.push_back(i);
  REQUIRE(t.names() == names && t.ids() == ids, "the table lists other names or IDs, or in another order");
  REQUIRE(t.empty() == m.empty(), "empty() is wrong");
  for (auto& [n, i] : m) {
    REQUIRE(t.collectionID(n) == i && t.present(n), "the ID of " << toHex(n));
    REQUIRE(t.name(i) == n && t.present(i), "the name of " << i);
  }
  const auto n = genName(c);
  if (std::find(names.begin(), names.end(), n) == names.end()) REQUIRE(!t.collectionID(n) && !t.present(n), "an unknown name has an ID");
  const auto i = uint32_t(c.bits(4));
  if (std::find(ids.begin(), ids.end(), i) == ids.end()) REQUIRE(!t.name(i) && !t.present(i), "an unknown ID has a name");
}
} // namespace

PBT_PROP_NOLEAK(id_tables_map_both_ways) {
  struct Tab {
    podio::CollectionIDTable t;
    Entries m;
  };
  std::vector<Tab> tabs(1);
  std::vector<std::string> pool;
  for (size_t i = 0, n = 3 + c.below(12); i < n; ++i) pool.push_back(pool.empty() || c.chance(2, 3) ? genName(c) : similarName(c, c.pick(pool)));
  std::map<std::string, uint32_t> idOf; // the same everywhere
  size_t repeated = 0;
  for (size_t step = 0, n = 5 + c.count(60); step < n; ++step) {
    auto& x = tabs[c.below(tabs.size())];
    switch (c.weighted({8, 1, 1, 1})) {
    case 0: {
      const auto& name = c.pick(pool);
      auto it = std::find_if(x.m.begin(), x.m.end(), [&](auto& e) { return e.first == name; });
      if (it == x.m.end()) {
        // two names with the same hash: a known finding
        const auto h = hashOf(name);
        const auto same = std::find_if(x.m.begin(), x.m.end(), [&](auto& e) { return e.second == h; });
        if (same != x.m.end()) {
          REQUIRE(!idOf.count(same->first) || idOf[same->first] != same->second || referenceHash(name) == referenceHash(same->first),
                  "the names " << toHex(name) << " and " << toHex(same->first) << " get the same ID " << h);
          break;
        }
      }
      const auto id = x.t.add(name);
      if (it != x.m.end()) {
        REQUIRE(id == it->second, "adding " << toHex(name) << " again gives another ID");
        ++repeated;
      } else {
        auto [k, fresh] = idOf.emplace(name, id);
        if (name.size() > 60) c.label("long name");
        REQUIRE(k->second == id, "the ID of " << toHex(name) << " depends on the table or the order");
        x.m.emplace_back(name, id);
      }
      break;
    }
    case 1: { // stored and read
      if (c.flip()) {
        podio::CollectionIDTable t(x.t.ids(), x.t.names());
        tabs.push_back({std::move(t), x.m});
      } else {
        auto i = x.t.ids();
        auto nn = x.t.names();
        podio::CollectionIDTable t(std::move(i), std::move(nn));
        tabs.push_back({std::move(t), x.m});
      }
      break;
    }
    case 2: { // a table with IDs that were given out otherwise
      Tab y;
      std::vector<uint32_t> ids;
      std::vector<std::string> names;
      for (size_t i = 0, k = c.below(6); i < k; ++i) {
        const auto nm = genName(c);
        const auto id = uint32_t(c.bits(4));
        if (std::find(names.begin(), names.end(), nm) != names.end() || std::find(ids.begin(), ids.end(), id) != ids.end()) continue;
        if (c.flip()) pool.push_back(nm);
        names.push_back(nm);
        ids.push_back(id);
        y.m.emplace_back(nm, id);
      }
      y.t = podio::CollectionIDTable(ids, names);
      tabs.push_back(std::move(y));
      break;
    }
    default: { // moved
      podio::CollectionIDTable t(std::move(x.t));
      x.t = std::move(t);
    }
    }
    const auto& y = tabs[c.below(tabs.size())];
    if (c.flip()) checkTable(c, y.t, y.m);
  }
  for (auto& x : tabs) checkTable(c, x.t, x.m);
  if (c.chance(1, 60) && !idOf.empty()) {
    std::string arg;
    for (auto& [n, i] : idOf) {
      if (!arg.empty()) arg += ",";
      arg += toHex(n);
    }
    if (arg.size() > 100000) return; // too long for one argument
    char self[4096];
    const auto len = readlink("/proc/self/exe", self, sizeof self - 1);
    self[len > 0 ? len : 0] = 0;
    std::string out;
    FILE* f = popen(("VERIF_IDS_OF=" + arg + " '" + self + "'").c_str(), "r");
    char buf[512];
    while (f && std::fgets(buf, sizeof buf, f)) out += buf;
    if (f) pclose(f);
    std::string want;
    for (auto& [n, i] : idOf) want += std::to_string(i) + ",";
    REQUIRE(out == want, "another process gives other IDs: " << out << " instead of " << want);
    c.label("compared with another process");
  }
  size_t most = 0;
  for (auto& x : tabs) most = std::max(most, x.m.size());
  if (most >= 2 && repeated) c.nontrivial();
}
/// runs in the ThreadSanitizer build
PBT_PROP(id_tables_can_be_shared_by_threads) {
  podio::CollectionIDTable t;
  std::vector<std::string> pool;
  for (size_t i = 0, n = 3 + c.below(6); i < n; ++i) {
    const auto nm = genName(c);
    const auto h = hashOf(nm);
    if (std::none_of(pool.begin(), pool.end(), [&](auto& o) { return hashOf(o) == h; })) pool.push_back(nm);
  }
  struct Op {
    int kind;
    std::string name;
    uint32_t id;
  };
  std::vector<std::vector<Op>> plans(2 + c.below(3));
  std::set<std::string> added;
  for (auto& p : plans)
    for (size_t i = 0, n = 1 + c.below(8); i < n; ++i) {
      const auto& nm = c.pick(pool);
      p.push_back({int(c.below(4)), nm, hashOf(nm)});
      if (p.back().kind < 2) added.insert(nm);
    }
  std::vector<std::string> bad(plans.size());
  std::atomic<size_t> ready{0};
  std::vector<std::thread> ts;
  for (size_t k = 0; k < plans.size(); ++k)
    ts.emplace_back([&, k] {
      ++ready;
      while (ready < plans.size()) std::this_thread::yield();
      std::set<std::string> mine;
      for (auto& o : plans[k]) {
        if (o.kind < 2) {
          if (t.add(o.name) != o.id) bad[k] = "adding gives another ID";
          mine.insert(o.name);
        } else if (o.kind == 2) {
          const auto i = t.collectionID(o.name);
          if (i && *i != o.id) bad[k] = "another ID";
          if (!i && mine.count(o.name)) bad[k] = "an added name is unknown";
        } else {
          const auto n = t.name(o.id);
          if (n && *n != o.name) bad[k] = "another name";
          if (!n && mine.count(o.name)) bad[k] = "an added ID is unknown";
          if (mine.count(o.name) && (!t.present(o.name) || !t.present(o.id))) bad[k] = "an added name is not there";
        }
      }
    });
  for (auto& x : ts) x.join();
  for (auto& b : bad) REQUIRE(b.empty(), b);
  const std::set<std::string> got(t.names().begin(), t.names().end());
  REQUIRE(got == added && t.names().size() == added.size() && t.ids().size() == added.size(), "the table has " << t.names().size() << " names instead of " << added.size());
  for (auto& n : added) REQUIRE(t.collectionID(n) == hashOf(n) && t.name(hashOf(n)) == n, "name and ID do not belong together");
  if (added.size() > 1) c.nontrivial();
}
/// known finding: these two names have the same 32 bit hash
PBT_PROP(probe_names_with_the_same_id) {
  podio::CollectionIDTable t;
#ifndef COLLIDE_A
  #define COLLIDE_A "hits3450"
  #define COLLIDE_B "hits24696"
#endif
  const auto a = t.add(COLLIDE_A), b = t.add(COLLIDE_B);
  REQUIRE(a != b, "two names have the same ID " << a);
  REQUIRE(t.name(a) == COLLIDE_A && t.name(b) == COLLIDE_B, "an ID leads to another name");
}

// ---------------------------------------------------------------- C20
namespace {
using podio::version::Version;
/// the documented encoding
constexpr u64 encode(u64 a, u64 b, u64 d) {
  return a << 32 | b << 16 | d;
}
constexpr u64 mix(u64 x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
constexpr uint16_t piece(u64 r) {
  const u64 k = (r >> 48) & 3;
  return uint16_t(k == 0 ? r & 3 : k == 1 ? 0xffff - (r & 3) : k == 2 ? (1u << (r & 15)) : r);
}
/// decoding only exists at compile time: pseudo-random triples
template <size_t I>
constexpr bool decodes() {
  constexpr u64 a = mix(3 * I), b = mix(3 * I + 1), d = mix(3 * I + 2);
  constexpr Version v{piece(a), piece(b), piece(d)};
  constexpr auto e = encode(v.major, v.minor, v.patch);
  constexpr Version w = podio::version::decode_version(e);
  return w == v && w.major == v.major && w.minor == v.minor && w.patch == v.patch && PODIO_MAJOR_VERSION(e) == v.major;
}
template <size_t... I>
size_t wrong(std::index_sequence<I...>) {
  constexpr bool ok[] = {decodes<I>()...};
  for (size_t i = 0; i < sizeof...(I); ++i)
    if (!ok[i]) return i;
  return size_t(-1);
}
} // namespace
PBT_PROP(versions_decode_at_compile_time) {
  const auto w = wrong(std::make_index_sequence<2000>{});
  REQUIRE(w == size_t(-1), "version " << piece(mix(3 * w)) << "." << piece(mix(3 * w + 1)) << "." << piece(mix(3 * w + 2)) << " does not survive encoding and decoding");
  struct Lit {
    u64 enc;
    Version dec;
    u64 a, b, d, parts[3];
  };
  static constexpr Lit lits[] = {
#define X(a, b, d)                                                                                                     \
  {PODIO_VERSION(a, b, d), podio::version::decode_version(PODIO_VERSION(a, b, d)), a, b, d,                            \
   {PODIO_MAJOR_VERSION(PODIO_VERSION(a, b, d)), PODIO_MINOR_VERSION(PODIO_VERSION(a, b, d)), PODIO_PATCH_VERSION(PODIO_VERSION(a, b, d))}},
#include "versions.inc"
#undef X
  };
  for (auto& l : lits)
    REQUIRE(l.enc == encode(l.a, l.b, l.d) && l.dec == (Version{uint16_t(l.a), uint16_t(l.b), uint16_t(l.d)}) && l.parts[0] == l.a && l.parts[1] == l.b && l.parts[2] == l.d,
            "encoding and decoding of " << l.a << "." << l.b << "." << l.d);
  REQUIRE(podio::version::decode_version(podio_VERSION) == podio::version::build_version && PODIO_BUILD_VERSION == podio_VERSION, "build version");
  REQUIRE(std::string(podio::version::build_version) == std::to_string(podio_VERSION_MAJOR) + "." + std::to_string(podio_VERSION_MINOR) + "." + std::to_string(podio_VERSION_PATCH), "text of the build version");
  c.nontrivial();
}
PBT_PROP(versions_are_ordered_triples) {
  auto gen = [&]() -> Version {
    auto p = [&] { return uint16_t(c.flip() ? c.below(4) : c.bits(2)); };
    const auto a = p(), b = p(), d = p();
    return {a, b, d};
  };
  const auto v = gen();
  auto w = c.chance(1, 3) ? v : gen();
  if (c.chance(1, 3)) w.major = v.major;
  if (c.chance(1, 3)) w.minor = v.minor;
  if (c.chance(1, 6)) w.patch = v.patch;
  auto enc = [](const Version& x) { return encode(x.major, x.minor, x.patch); };
  auto lex = [](const Version& x, const Version& y) {
    if (x.major != y.major) return x.major < y.major ? -1 : 1;
    if (x.minor != y.minor) return x.minor < y.minor ? -1 : 1;
    return x.patch == y.patch ? 0 : x.patch < y.patch ? -1 : 1;
  };
  const int o = lex(v, w);
  auto txt = [](const Version& x) { return std::to_string(x.major) + "." + std::to_string(x.minor) + "." + std::to_string(x.patch); };
  const auto what = txt(v) + " and " + txt(w);
  REQUIRE((v < w) == (o < 0) && (v <= w) == (o <= 0) && (v > w) == (o > 0) && (v >= w) == (o >= 0) && (v == w) == (o == 0) && (v != w) == (o != 0), "comparison of " << what);
  REQUIRE((enc(v) < enc(w)) == (o < 0) && (enc(v) == enc(w)) == (o == 0), "order of the encodings of " << what);
  const auto e = enc(v);
  REQUIRE(PODIO_MAJOR_VERSION(e) == v.major && PODIO_MINOR_VERSION(e) == v.minor && PODIO_PATCH_VERSION(e) == v.patch, "parts of the encoding of " << txt(v));
  REQUIRE(std::string(v) == txt(v), "text of " << txt(v) << " is " << std::string(v));
  std::ostringstream os;
  os << v << ' ' << w;
  REQUIRE(os.str() == txt(v) + " " + txt(w), "printed text of " << what);
  if (o) c.nontrivial();
}

// ---------------------------------------------------------------- C21
namespace {
struct Glob {
  // a pattern as alternatives of tokens; a token is one character, ?, * or a set
  enum K { Lit, One, Many, Set, NotSet };
  struct Tok {
    K k;
    std::string s;
  };
  using Pat = std::vector<Tok>;
};
const char* const ALPHA = "abc.-1";
Glob::Pat genPlain(Case& c, size_t max, bool magic) {
  Glob::Pat r;
  for (size_t i = 0, n = c.below(max + 1); i < n; ++i) {
    switch (magic ? c.weighted({5, 1, 2, 1, 1}) : 0) {
    case 0:
      r.push_back({Glob::Lit, std::string(1, ALPHA[c.below(6)])});
      break;
    case 1:
      r.push_back({Glob::One, ""});
      break;
    case 2:
      r.push_back({Glob::Many, ""});
      break;
    case 3:
    default: {
      std::string s;
      for (size_t j = 0, m = 1 + c.below(3); j < m; ++j) s += ALPHA[c.below(4)];
      r.push_back({c.flip() ? Glob::Set : Glob::NotSet, s});
    }
    }
  }
  return r;
}
std::string text(const Glob::Pat& p) {
  std::string r;
  for (auto& t : p) switch (t.k) {
    case Glob::Lit: r += t.s; break;
    case Glob::One: r += "?"; break;
    case Glob::Many: r += "*"; break;
    case Glob::Set: r += "[" + t.s + "]"; break;
    default: r += "[!" + t.s + "]";
    }
  return r;
}
bool magic(const Glob::Pat& p) {
  return std::any_of(p.begin(), p.end(), [](auto& t) { return t.k != Glob::Lit; });
}
/// standard wildcard rules for one name
bool matches(const Glob::Pat& p, const std::string& s) {
  return fnmatch(text(p).c_str(), s.c_str(), FNM_PERIOD) == 0;
}
} // namespace
PBT_PROP_NOLEAK(path_patterns_expand_to_the_matching_files) {
  namespace fs = std::filesystem;
  std::string dir = fs::current_path().string() + "/globXXXXXX";
  REQUIRE(mkdtemp(dir.data()), "no scratch directory");
  struct Rm {
    std::string d;
    ~Rm() { fs::remove_all(d); }
  } rm{dir};
  std::set<std::string> files{"", "."}, sub;
  std::string subdir;
  for (size_t i = 0, n = c.below(9); i < n; ++i) {
    std::string f;
    for (size_t j = 0, m = 1 + c.below(4); j < m; ++j) f += ALPHA[c.below(6)];
    if (f == "." || f == "..") continue;
    if (!files.insert(f).second) continue;
    if (subdir.empty() && c.chance(1, 4)) {
      subdir = f;
      fs::create_directory(dir + "/" + f);
      continue;
    }
    std::ofstream(dir + "/" + f).flush();
  }
  files.erase("");
  files.erase(".");
  if (!subdir.empty())
    for (size_t i = 0, n = c.below(4); i < n; ++i) {
      std::string f(1, ALPHA[c.below(3)]);
      if (c.flip()) f += ALPHA[c.below(6)];
      sub.insert(f);
      std::ofstream(dir + "/" + subdir + "/" + f).flush();
    }
  // prefix {a,b,...} suffix, possibly in the subdirectory
  const bool wantMagic = c.chance(5, 6);
  const bool braces = c.chance(1, 3);
  const bool inSub = !subdir.empty() && c.chance(1, 3);
  auto pre = genPlain(c, 3, wantMagic);
  std::vector<Glob::Pat> alts;
  Glob::Pat post;
  std::string pat = text(pre);
  if (braces) {
    pat += "{";
    for (size_t i = 0, n = 1 + c.below(3); i < n; ++i) {
      alts.push_back(genPlain(c, 2, wantMagic));
      pat += (i ? "," : "") + text(alts.back());
    }
    if (alts.size() == 1 && alts[0].empty()) {
      alts[0].push_back({Glob::Lit, "a"});
      pat += "a";
    }
    pat += "}";
    post = genPlain(c, 2, wantMagic);
    pat += text(post);
  } else {
    alts.emplace_back();
  }
  bool anyMagic = braces || magic(pre) || magic(post);
  for (auto& a : alts) anyMagic = anyMagic || magic(a);
  if (pat.empty() || pat == "." || pat == "..") return;
  std::vector<std::string> want;
  const std::string prefix = dir + "/" + (inSub ? subdir + "/" : "");
  if (!anyMagic) {
    want.push_back(prefix + pat);
  } else {
    for (auto& a : alts) {
      auto p = pre;
      p.insert(p.end(), a.begin(), a.end());
      p.insert(p.end(), post.begin(), post.end());
      if (p.empty()) {
        want.push_back(prefix); // the directory itself
        continue;
      }
      const auto t = text(p);
      if (t == "." || t == "..") {
        want.push_back(prefix + t);
        continue;
      }
      for (auto& f : inSub ? sub : files)
        if (matches(p, f)) want.push_back(prefix + f);
      // . and .. are there as well
      for (std::string f : {".", ".."})
        if (matches(p, f)) want.push_back(prefix + f);
    }
  }
  c.log("pattern ", pat, " in a directory with ", files.size(), " files");
  REQUIRE(podio::utils::is_glob_pattern(pat) == anyMagic, "is_glob_pattern(" << pat << ")");
  std::sort(want.begin(), want.end());
  std::vector<std::string> got;
  // reached absolutely or through the home directory
  const bool home = c.chance(1, 4);
  const std::string arg = home ? "~/" + prefix.substr(dir.size() + 1) + pat : prefix + pat;
  static char homeEnv[4200]; // setenv would keep memory
  std::snprintf(homeEnv, sizeof homeEnv, "HOME=%s", dir.c_str());
  if (home) putenv(homeEnv);
  if (want.empty()) {
    REQUIRE_THROWS_AS((void)podio::utils::expand_glob(arg), std::runtime_error, "no file matches " << pat);
    c.label("no match");
    return;
  }
  if (home && !anyMagic && !fs::exists(prefix + pat)) return;
  got = podio::utils::expand_glob(arg);
  std::sort(got.begin(), got.end());
  std::ostringstream d;
  for (auto& g : got) d << " " << g.substr(std::min(g.size(), dir.size() + 1));
  d << " instead of";
  for (auto& g : want) d << " " << g.substr(std::min(g.size(), dir.size() + 1));
  REQUIRE(got == want, "pattern " << arg << " expands to" << d.str());
  if (anyMagic) c.nontrivial();
}
PBT_PROP(escaped_wildcards_are_no_pattern) {
  std::string p;
  bool magic = false;
  for (size_t i = 0, n = c.below(10); i < n; ++i) {
    const char ch = "ab*?[{\\]},/~"[c.below(12)];
    if (ch == '\\') {
      if (i + 1 == n) break;
      p += ch;
      p += "ab*?[{\\"[c.below(7)];
      continue;
    }
    p += ch;
    magic = magic || ch == '*' || ch == '?' || ch == '[' || ch == '{';
  }
  REQUIRE(podio::utils::is_glob_pattern(p) == magic, "is_glob_pattern(" << p << ")");
  if (p.find('\\') != std::string::npos) c.nontrivial();
}
PBT_PROP_NOLEAK(text_helpers_agree_with_plain_ones) {
  // splitting
  const char delim = c.flip() ? ';' : char(c.bits(1));
  std::string s;
  for (size_t i = 0, n = c.count(20); i < n; ++i) s += c.chance(1, 3) ? delim : c.flip() ? char('a' + c.below(4)) : char(c.bits(1));
  std::vector<std::string> want, got;
  if (!s.empty()) { // (an empty text has no parts)
    std::string cur;
    for (char ch : s) {
      if (ch == delim) {
        want.push_back(cur);
        cur.clear();
      } else
        cur += ch;
    }
    want.push_back(cur);
  }
  const std::string_view sv = s;
  for (auto p : podio::utils::splitString(sv, delim)) {
    REQUIRE(p.empty() || (p.data() >= s.data() && p.data() + p.size() <= s.data() + s.size()), "a part is not a view into the text");
    got.emplace_back(p);
  }
  REQUIRE(got == want, "splitting " << toHex(s) << " at " << int(delim) << " gives " << got.size() << " parts instead of " << want.size() << ", or others");

  // sorting regardless of case
  std::vector<std::string> v;
  for (size_t i = 0, n = c.count(12); i < n; ++i) {
    std::string x;
    for (size_t j = 0, m = c.below(4); j < m; ++j) x += "aAbBcC_1Zz~"[c.below(11)];
    if (c.chance(1, 6)) x += c.text(3);
    v.push_back(x);
  }
  auto r = podio::utils::sortAlphabeticaly(v);
  auto low = [](std::string x) {
    for (auto& ch : x)
      if (ch >= 'A' && ch <= 'Z') ch = char(ch - 'A' + 'a');
    return x;
  };
  // (bytes that are no ASCII characters may be anywhere relative to the others)
  auto ascii = [](const std::string& x) { return std::all_of(x.begin(), x.end(), [](unsigned char ch) { return ch < 128; }); };
  auto a = v, b = r;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  REQUIRE(a == b, "sorting loses or changes texts");
  if (std::all_of(v.begin(), v.end(), ascii))
    for (size_t i = 1; i < r.size(); ++i) REQUIRE(low(r[i - 1]) <= low(r[i]), "sorted texts " << r[i - 1] << " and " << r[i] << " are in the wrong order");
  if (want.size() > 1 && v.size() > 1) c.nontrivial();
}
PBT_PROP_NOLEAK(string_key_maps_are_maps) {
  podio::StringKeyMap<u64> m;
  std::map<std::string, u64> ref;
  std::vector<std::string> pool;
  for (size_t i = 0, n = 1 + c.below(8); i < n; ++i) pool.push_back(c.flip() ? c.ident(3) : c.text(5));
  size_t hits = 0;
  for (size_t i = 0, n = c.count(40); i < n; ++i) {
    const auto& k = c.pick(pool);
    const std::string longer = k + "tail";
    const std::string_view kv = std::string_view(longer).substr(0, k.size()); // not terminated
    switch (c.draw(5)) {
    case 0:
      m[k] = ref[k] = c.draw(100);
      break;
    case 1: {
      const auto v = c.draw(100);
      REQUIRE(m.try_emplace(k, v).second == ref.try_emplace(k, v).second, "insertion");
      break;
    }
    case 2: {
      const auto it = m.find(k);
      if (it != m.end()) m.erase(it);
      ref.erase(k);
      break;
    }
    default: {
      const auto it = ref.find(k);
      const auto x = m.find(kv);
      REQUIRE((x != m.end()) == (it != ref.end()), "lookup of " << toHex(k) << " by view");
      REQUIRE(m.contains(kv) == (it != ref.end()) && m.count(k) == size_t(it != ref.end()), "lookup of " << toHex(k));
      if (k.find('\0') == std::string::npos) REQUIRE((m.find(k.c_str()) != m.end()) == (it != ref.end()), "lookup of " << toHex(k) << " by pointer");
      if (it != ref.end()) {
        REQUIRE(x->second == it->second && x->first == k && m.find(k) == x, "value of " << toHex(k));
        ++hits;
      }
    }
    }
    REQUIRE(m.size() == ref.size(), "size");
  }
  if (hits) c.nontrivial();
}
namespace {
// pseudo-random type lists, one per number
template <u64 N>
struct Ty;
#define VT(n, t)                                                                                                       \
  template <>                                                                                                          \
  struct Ty<n> {                                                                                                       \
    using type = t;                                                                                                    \
  };
VT(0, int)
VT(1, float)
VT(2, std::vector<int>)
VT(3, std::string)
VT(4, double)
VT(5, std::vector<std::string>)
VT(6, char)
VT(7, std::vector<std::vector<int>>)
#undef VT
constexpr int vecOf[8] = {2, -1, 7, 5, -1, -1, -1, -1};
template <u64 S, size_t... I>
constexpr auto listOf(std::index_sequence<I...>) -> std::tuple<typename Ty<mix(S * 64 + I) % 8>::type...>;
template <u64 S>
using List = decltype(listOf<S>(std::make_index_sequence<mix(S ^ 0xabcdef) % 5>{}));
template <u64 S>
constexpr bool has(u64 t, bool orVector) {
  for (size_t i = 0; i < mix(S ^ 0xabcdef) % 5; ++i) {
    const auto x = mix(S * 64 + i) % 8;
    if (x == t || (orVector && vecOf[x] == int(t))) return true;
  }
  return false;
}
template <u64 S, u64 T>
constexpr bool oneType() {
  using X = typename Ty<T>::type;
  using L = List<S>;
  namespace d = podio::detail;
  return d::isInTuple<X, L> == has<S>(T, false) && d::isAnyOrVectorOf<X, L> == has<S>(T, true) &&
      std::tuple_size_v<d::TupleOfVector<L>> == std::tuple_size_v<L> && std::is_same_v<d::TupleCatType<L, std::tuple<X>>, decltype(std::tuple_cat(std::declval<L>(), std::declval<std::tuple<X>>()))> &&
      d::isInTuple<std::vector<X>, d::TupleOfVector<L>> == has<S>(T, false) && d::isVector<X> == (T == 2 || T == 5 || T == 7) && d::isVector<std::vector<X>> &&
      std::is_same_v<d::GetVectorType<std::vector<X>>, X> && d::isMap<std::map<X, int>> && !d::isMap<X> &&
      std::is_same_v<d::GetKeyType<std::map<X, float>>, X> && std::is_same_v<d::GetMappedType<std::map<int, X>>, X> &&
      std::is_same_v<d::GetKeyType<std::vector<std::pair<X, int>>>, X> && std::is_same_v<d::GetMappedType<std::vector<std::tuple<int, X>>>, X>;
}
template <u64 S>
constexpr bool oneList() {
  return oneType<S, 0>() && oneType<S, 1>() && oneType<S, 2>() && oneType<S, 3>() && oneType<S, 4>() && oneType<S, 5>() && oneType<S, 6>() && oneType<S, 7>();
}
template <size_t... I>
size_t wrongLists(std::index_sequence<I...>) {
  constexpr bool ok[] = {oneList<I + 1>()...};
  for (size_t i = 0; i < sizeof...(I); ++i)
    if (!ok[i]) return i;
  return size_t(-1);
}
// pseudo-random texts for compile time concatenation
template <u64 S>
struct Txt {
  static constexpr size_t len = mix(S) % 7;
  static constexpr auto chars = [] {
    std::array<char, len + 1> a{};
    for (size_t i = 0; i < len; ++i) a[i] = char(mix(S + 1000 * i) % 8 ? 'a' + mix(S + i) % 26 : mix(S + i) % 256);
    return a;
  }();
  static constexpr std::string_view value{chars.data(), len};
};
template <u64 S>
std::string wrongConcat() {
  using A = Txt<S * 4>;
  using B = Txt<S * 4 + 1>;
  using D = Txt<S * 4 + 2>;
  const std::string a(A::value), b(B::value), d(D::value);
  namespace u = podio::utils;
  constexpr auto c3 = u::static_concatenate_v<A::value, B::value, D::value>;
  constexpr auto c2 = u::static_concatenate_v<B::value, B::value>;
  constexpr auto c1 = u::static_concatenate_v<D::value>;
  if (c3 != a + b + d || c3.data()[c3.size()] != 0) return "three texts";
  if (c2 != b + b || c2.data()[c2.size()] != 0) return "two texts";
  if (c1 != d || c1.data()[c1.size()] != 0) return "one text";
  return "";
}
template <size_t... I>
std::string wrongConcats(std::index_sequence<I...>) {
  std::string r;
  ((r = r.empty() ? wrongConcat<I>() : r), ...);
  return r;
}
} // namespace
PBT_PROP(type_lists_and_compile_time_texts) {
  const auto l = wrongLists(std::make_index_sequence<60>{});
  REQUIRE(l == size_t(-1), "type list " << l);
  const auto s = wrongConcats(std::make_index_sequence<100>{});
  REQUIRE(s.empty(), "concatenating " << s);
  c.nontrivial();
}
PBT_PROP_NOLEAK(ranges_become_vectors) {
  std::vector<int> v;
  for (size_t i = 0, n = c.count(20); i < n; ++i) v.push_back(int(c.bits(4)));
  REQUIRE(podio::detail::to_vector<int>(v) == v, "vector");
  auto odd = v | std::views::filter([](int x) { return x & 1; });
  std::vector<int> w;
  for (auto x : v)
    if (x & 1) w.push_back(x);
  REQUIRE(podio::detail::to_vector<int>(odd) == w, "filtered");
  auto twice = v | std::views::transform([](int x) { return double(x) * 2; });
  std::vector<double> d;
  for (auto x : v) d.push_back(double(x) * 2);
  REQUIRE(podio::detail::to_vector<double>(twice) == d, "transformed");
  if (v.size() > 1) c.nontrivial();
}
