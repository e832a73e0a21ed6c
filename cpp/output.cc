// What objects and collections look like as JSON (C18) and as text (C19)
#include "store.h"
#ifdef PODIO_JSON_OUTPUT
  #include <nlohmann/json.hpp>
#endif
#include <cmath>
#include <iomanip>
#include <sstream>
using namespace wm;

namespace {
double asDouble(LK k, u64 b) { return k == LK::F32 ? double(udFrom<float>(b)) : udFrom<double>(b); }

/// which of the objects' IDs is that of a relation target
podio::ObjectID targetId(const World& w, const er::RelInfo& r, int target) {
  if (target >= 0) return w.expectId(target);
  const int t = r.targets[0];
  return T(t).id(T(t).makeEmpty(), 0);
}

/// objects and collections in all states: in a frame (or not), stored and read back with parts missing
struct Scene {
  std::unique_ptr<FrameWorld> first, second;
  FrameWorld* w;

  explicit Scene(Case& c) : first(std::make_unique<FrameWorld>(c)), w(first.get()) {
    first->populate(4, 4, 20, c.chance(1, 4) && std::any_of(er::types().begin(), er::types().end(), [](const auto& t) { return t->isLink; }));
    first->inFrame.resize(first->cm.size());
    switch (c.draw(3)) {
    case 0: // nothing has an ID
      c.label("objects in no frame");
      break;
    case 1:
      c.label("objects in a frame");
      first->putAll();
      break;
    default: {
      c.label("objects that were read back");
      first->putAll();
      auto names = first->someNames(5);
      if (names.empty()) break;
      auto s = storeFrame(*first->frame, names);
      second = readBack(*first, s);
      w = second.get();
      for (size_t k = 0; k < w->cm.size(); ++k)
        if (w->inFrame[k]) w->fetch(int(k));
    }
    }
  }
  std::vector<int> colls() const {
    std::vector<int> r;
    for (size_t k = 0; k < w->cm.size(); ++k)
      if (w->cm[k].alive && w->raw[k]) r.push_back(int(k));
    return r;
  }
  /// an object and a handle to it, free or in a collection
  std::pair<int, Handle> object(Case& c) const {
    std::vector<int> os;
    for (auto o : w->liveObjs())
      if (w->handleOf(o, false)) os.push_back(o);
    if (os.empty()) return {NONE, {}};
    const int o = c.pick(os);
    auto h = w->handleOf(o, c.flip());
    return {o, h ? h : w->handleOf(o, false)};
  }
};

#ifdef PODIO_JSON_OUTPUT
using nlohmann::json;

std::string checkNumber(const json& j, LK k, u64 b) {
  switch (k) {
  case LK::Bool:
    return j.is_boolean() && j.get<bool>() == (b != 0) ? "" : "is not the truth value";
  case LK::F32:
  case LK::F64: {
    const double d = asDouble(k, b);
    if (!std::isfinite(d)) return j.is_null() ? "" : "is not null"; // JSON has no such numbers
    if (!j.is_number()) return "is no number";
    // a parser may take a whole number in the text for an integer
    return udTo(j.get<double>()) == udTo(d) || (k == LK::F32 && udTo(j.get<float>()) == udTo(udFrom<float>(b))) ? "" : "is another number";
  }
  case LK::U16:
  case LK::U32:
  case LK::U64:
    return j.is_number_integer() && j.get<uint64_t>() == b && (!j.is_number_integer() || j.is_number_unsigned()) ? "" : "is another number";
  default: {
    const int w = er::widthOf(k) * 8;
    const int64_t v = int64_t(b << (64 - w)) >> (64 - w);
    return j.is_number_integer() && j.get<int64_t>() == v && (v < 0 || j.is_number_unsigned()) ? "" : "is another number";
  }
  }
}
/// what is found below a path like a.b[2].c; counts how many leaves every container must have
const json* walk(const json& root, const std::string& path) {
  const json* j = &root;
  size_t i = 0;
  while (i < path.size()) {
    if (path[i] == '[') {
      const size_t e = path.find(']', i);
      const size_t n = std::stoul(path.substr(i + 1, e - i - 1));
      if (!j->is_array() || n >= j->size()) return nullptr;
      j = &(*j)[n];
      i = e + 1;
    } else {
      if (path[i] == '.') ++i;
      const size_t e = std::min(path.find_first_of(".[", i), path.size());
      const std::string key = path.substr(i, e - i);
      if (!j->is_object() || !j->contains(key)) return nullptr;
      j = &(*j)[key];
      i = e;
    }
  }
  return j;
}
size_t countLeaves(const json& j) {
  if (!j.is_structured()) return 1;
  size_t n = 0;
  for (auto& x : j) n += countLeaves(x);
  return n;
}
std::string checkId(const json& in, const podio::ObjectID& id) {
  const json* j = &in;
  if (j->is_array() && j->size() == 1) j = &(*j)[0]; // depends on the version of the library
  if (!j->is_object() || j->size() != 2 || !j->contains("collectionID") || !j->contains("index")) return "is no ID: " + in.dump();
  if ((*j)["collectionID"] != id.collectionID || (*j)["index"] != id.index) return "is " + in.dump() + " instead of " + str(id);
  return "";
}
std::string checkObject(const World& w, const json& j, int o) {
  const auto& m = w.objs[size_t(o)];
  const auto& t = T(m.type);
  const size_t nKeys = t.memberNames.size() + t.vecs.size() + t.ones.size() + t.manys.size();
  if (nKeys == 0 && j.is_null()) return "";
  if (!j.is_object()) return "is no JSON object: " + j.dump();
  if (j.size() != nKeys) return "has " + std::to_string(j.size()) + " entries instead of " + std::to_string(nKeys);
  for (size_t l = 0; l < t.leaves.size(); ++l) {
    const auto* x = walk(j, t.leaves[l].path);
    if (!x) return std::string("lacks ") + t.leaves[l].path;
    if (auto s = checkNumber(*x, t.leaves[l].kind, m.leaves[l]); !s.empty()) return std::string("member ") + t.leaves[l].path + " " + s + ": " + x->dump() + " for " + hex(m.leaves[l]);
  }
  size_t inMembers = 0;
  for (auto* n : t.memberNames) {
    if (!j.contains(n)) return std::string("lacks ") + n;
    inMembers += countLeaves(j[n]);
  }
  if (inMembers != t.leaves.size()) return "has other parts of members than there are";
  for (size_t v = 0; v < t.vecs.size(); ++v) {
    const std::string n = t.vecs[v].name;
    if (!j.contains(n) || !j[n].is_array()) return "lacks vector member " + n;
    if (j[n].size() != m.vecs[v].size()) return "vector member " + n + " has " + std::to_string(j[n].size()) + " elements instead of " + std::to_string(m.vecs[v].size());
    for (size_t k = 0; k < m.vecs[v].size(); ++k) {
      for (size_t l = 0; l < t.vecs[v].leaves.size(); ++l) {
        const auto* x = walk(j[n][k], t.vecs[v].leaves[l].path);
        if (!x) return "vector member " + n + " lacks " + t.vecs[v].leaves[l].path;
        if (auto s = checkNumber(*x, t.vecs[v].leaves[l].kind, m.vecs[v][k][l]); !s.empty()) return "vector member " + n + "[" + std::to_string(k) + "] " + s + ": " + x->dump();
      }
      if (countLeaves(j[n][k]) != t.vecs[v].leaves.size()) return "vector member " + n + " has other parts than there are";
    }
  }
  for (size_t r = 0; r < t.ones.size(); ++r) {
    const std::string n = t.ones[r].name;
    if (!j.contains(n)) return "lacks relation " + n;
    if (auto s = checkId(j[n], targetId(w, t.ones[r], m.ones[r])); !s.empty()) return "relation " + n + " " + s;
  }
  for (size_t r = 0; r < t.manys.size(); ++r) {
    const std::string n = t.manys[r].name;
    if (!j.contains(n) || !j[n].is_array()) return "lacks relation " + n;
    if (j[n].size() != m.manys[r].size()) return "relation " + n + " has " + std::to_string(j[n].size()) + " elements instead of " + std::to_string(m.manys[r].size());
    for (size_t k = 0; k < m.manys[r].size(); ++k)
      if (auto s = checkId(j[n][k], targetId(w, t.manys[r], m.manys[r][k])); !s.empty()) return "relation " + n + "[" + std::to_string(k) + "] " + s;
  }
  return "";
}
json parse(const std::string& text) {
  try {
    return json::parse(text);
  } catch (const json::exception& e) {
    throw pbt::Fail{"the JSON text cannot be parsed: " + text};
  }
}
#endif

// ------------------------------------------------------------------ text
/// how a stream formats things
struct Format {
  std::ios::fmtflags flags{};
  std::streamsize precision{6}, width{0};
  char fill{' '};
};
Format genFormat(Case& c) {
  Format f;
  const std::ios::fmtflags bases[] = {std::ios::dec, std::ios::hex, std::ios::oct, std::ios::fmtflags{}};
  const std::ios::fmtflags floats[] = {std::ios::fmtflags{}, std::ios::fixed, std::ios::scientific, std::ios::fixed | std::ios::scientific};
  const std::ios::fmtflags adjusts[] = {std::ios::fmtflags{}, std::ios::left, std::ios::right, std::ios::internal};
  f.flags = bases[c.weighted({6, 2, 1, 1})] | floats[c.weighted({5, 2, 2, 1})] | adjusts[c.weighted({5, 2, 2, 1})];
  for (auto x : {std::ios::boolalpha, std::ios::showbase, std::ios::showpoint, std::ios::showpos, std::ios::uppercase, std::ios::unitbuf, std::ios::skipws})
    if (c.chance(1, 4)) f.flags |= x;
  if (c.chance(1, 3)) f.precision = long(c.below(20));
  if (c.chance(1, 4)) f.width = long(c.below(30));
  if (c.chance(1, 5)) f.fill = char('!' + c.below(60));
  return f;
}
std::string show(const Format& f) {
  std::ostringstream o;
  o << "flags " << hex(u64(f.flags)) << " precision " << f.precision << " width " << f.width << " fill '" << f.fill << "'";
  return o.str();
}
struct Out : std::ostringstream {
  explicit Out(const Format& f) {
    flags(f.flags);
    precision(f.precision);
    width(f.width);
    fill(f.fill);
  }
};
void checkState(const Out& o, const Format& f, const std::string& what) {
  REQUIRE(o.good(), what << ": the stream is broken afterwards");
  REQUIRE(o.flags() == f.flags, what << " leaves the stream with flags " << hex(u64(o.flags())) << " instead of " << hex(u64(f.flags)));
  REQUIRE(o.precision() == f.precision, what << " leaves the stream with precision " << o.precision() << " instead of " << f.precision);
  REQUIRE(o.fill() == f.fill, what << " leaves the stream with fill '" << o.fill() << "' instead of '" << f.fill << "'");
  REQUIRE(o.width() == 0 || o.width() == f.width, what << " leaves the stream with width " << o.width());
}
/// words of a text: spaces and bars only separate, plus signs are decoration
std::vector<std::string> words(const std::string& s) {
  std::vector<std::string> r;
  std::string w;
  for (char ch : s + " ") {
    if (ch == ' ' || ch == '\n' || ch == '|') {
      if (!w.empty()) r.push_back(w[0] == '+' && w.size() > 1 ? w.substr(1) : w);
      w.clear();
    } else {
      w += ch;
    }
  }
  return r;
}
struct Words {
  Format f;
  std::string text;
  bool known{true}; // some things cannot be told apart in the output

  template <typename V>
  void put(const V& v) {
    std::ostringstream o;
    o.flags(f.flags);
    o.precision(f.precision);
    o << v;
    text += o.str() + " ";
  }
  void lit(const std::string& s) { text += s + " "; }
  void leaf(LK k, u64 b) {
    switch (k) {
    case LK::Bool:
      return put(b != 0);
    case LK::Char: {
      const auto ch = char(b);
      if (ch <= ' ' || ch > '~' || ch == '|' || ch == '+') known = false;
      return put(ch);
    }
    case LK::I16:
      return put(udFrom<int16_t>(b));
    case LK::I32:
      return put(udFrom<int32_t>(b));
    case LK::I64:
      return put(udFrom<int64_t>(b));
    case LK::U16:
      return put(udFrom<uint16_t>(b));
    case LK::U32:
      return put(udFrom<uint32_t>(b));
    case LK::U64:
      return put(udFrom<uint64_t>(b));
    case LK::F32:
      return put(udFrom<float>(b));
    default:
      return put(udFrom<double>(b));
    }
  }
  void id(const podio::ObjectID& i) {
    const auto old = f.flags;
    f.flags = (f.flags & ~std::ios::basefield) | std::ios::hex;
    put(i.collectionID);
    f.flags = old;
    put(i.index);
  }
  void member(const er::TypeOps& t, const Obj& m, size_t n) {
    for (size_t l = 0; l < t.leaves.size(); ++l)
      if (t.leaves[l].member == int(n)) leaf(t.leaves[l].kind, m.leaves[l]);
  }
};
bool isArray(const er::TypeOps& t, size_t n) {
  for (auto& l : t.leaves)
    if (l.member == int(n)) {
      const std::string p = l.path;
      return p.size() > std::string(t.memberNames[n]).size() && p[std::string(t.memberNames[n]).size()] == '[';
    }
  return false;
}
/// goes through the words of a text along with what they should be
struct Reader {
  const World& w;
  Format f;
  std::vector<std::string> got;
  size_t i{0};
  bool known{true};
  std::string error;

  bool want(const Words& e) {
    known = known && e.known;
    for (auto& x : words(e.text)) {
      if (i >= got.size() || got[i] != x) {
        error = "shows '" + (i < got.size() ? got[i] : "nothing") + "' instead of '" + x + "' as word " + std::to_string(i);
        return false;
      }
      ++i;
    }
    return true;
  }
  bool atObject() const { return i < got.size() && (got[i] == "id:" || got[i] == "[not"); }
  /// an object on its own: ID, members, related objects, vector members
  bool object(int o, int type) {
    Words e{f, "", true};
    if (o < 0) {
      e.lit("[not available]");
      return want(e);
    }
    const auto& m = w.objs[size_t(o)];
    const auto& t = T(type);
    e.lit("id:");
    e.id(w.expectId(o));
    for (size_t n = 0; n < t.memberNames.size(); ++n) {
      e.lit(t.memberNames[n] + std::string(t.isLink ? ":" : " :"));
      e.member(t, m, n);
    }
    for (size_t r = 0; r < t.ones.size(); ++r) {
      e.lit(t.ones[r].name + std::string(t.isLink ? ":" : " :"));
      e.id(targetId(w, t.ones[r], m.ones[r]));
    }
    if (!want(e)) return false;
    for (size_t r = 0; r < t.manys.size(); ++r) {
      Words n{f, "", true};
      n.lit(t.manys[r].name + std::string(" :"));
      if (!want(n)) return false;
      for (auto x : m.manys[r]) {
        // related objects may be shown in full
        if (atObject()) {
          if (!object(x, x >= 0 ? w.objs[size_t(x)].type : NONE)) return false;
        } else {
          Words id{f, "", true};
          id.id(targetId(w, t.manys[r], x));
          if (!want(id)) return false;
        }
      }
    }
    Words v{f, "", true};
    for (size_t k = 0; k < t.vecs.size(); ++k) {
      v.lit(t.vecs[k].name + std::string(" :"));
      for (auto& x : m.vecs[k])
        for (size_t l = 0; l < x.size(); ++l) v.leaf(t.vecs[k].leaves[l].kind, x[l]);
    }
    return want(v);
  }
};
/// a collection: a title, and for every element ID, members (but arrays), related objects and vector members
Words collWords(const World& w, int k, const Format& f) {
  const auto& t = T(w.cm[size_t(k)].type);
  Words e{f, "", true};
  e.f.flags = (f.flags & ~std::ios::floatfield) | std::ios::scientific | std::ios::showpos;
  for (auto o : w.cm[size_t(k)].items) {
    if (o < 0) {
      e.id(T(t.index).id(T(t.index).makeEmpty(), 0));
      e.lit("[not available]");
      continue;
    }
    const auto& m = w.objs[size_t(o)];
    e.id(w.expectId(o));
    for (size_t n = 0; n < t.memberNames.size(); ++n)
      if (!isArray(t, n)) e.member(t, m, n);
    for (size_t r = 0; r < t.manys.size(); ++r) {
      e.lit(t.manys[r].name + std::string(" :"));
      for (auto x : m.manys[r]) e.id(targetId(w, t.manys[r], x));
    }
    for (size_t r = 0; r < t.ones.size(); ++r) {
      e.lit(t.ones[r].name + std::string(" :"));
      e.id(targetId(w, t.ones[r], m.ones[r]));
    }
    for (size_t v = 0; v < t.vecs.size(); ++v) {
      e.lit(t.vecs[v].name + std::string(" :"));
      for (auto& x : m.vecs[v])
        for (size_t l = 0; l < x.size(); ++l) e.leaf(t.vecs[v].leaves[l].kind, x[l]);
    }
  }
  return e;
}
void compare(const std::string& got, const Words& want, const std::string& what) {
  const auto g = words(got), e = words(want.text);
  if (g == e) return;
  size_t i = 0;
  while (i < g.size() && i < e.size() && g[i] == e[i]) ++i;
  throw pbt::Fail{what + " shows '" + (i < g.size() ? g[i] : "nothing") + "' instead of '" + (i < e.size() ? e[i] : "nothing") + "' as word " + std::to_string(i) + ": " + got};
}
/// is a text with this format taken apart by words()?
bool separable(const Format& f) { return f.fill == ' ' && (f.flags & std::ios::adjustfield) != std::ios::internal; }
} // namespace

#ifdef PODIO_JSON_OUTPUT
PBT_PROP(json_mirrors_the_content) {
  Scene s(c);
  const auto& w = *s.w;
  size_t rel = 0, seen = 0;
  for (size_t i = 0; i < 3; ++i) {
    auto [o, h] = s.object(c);
    if (o == NONE) break;
    const auto& m = w.objs[size_t(o)];
    const auto text = T(m.type).json(h);
    c.log("object ", text);
    auto e = checkObject(w, parse(text), o);
    REQUIRE(e.empty(), T(m.type).name << (h.mut() ? " (mutable) " : " ") << e);
    for (auto x : m.ones) rel += x >= 0;
    for (auto& x : m.manys) rel += x.size();
    ++seen;
  }
  for (auto k : s.colls()) {
    const auto& m = w.cm[size_t(k)];
    const auto text = T(m.type).jsonColl(*w.raw[size_t(k)]);
    c.log("collection ", text);
    const auto j = parse(text);
    REQUIRE(j.is_array() && j.size() == m.items.size(), "a collection of " << m.items.size() << " elements becomes " << text);
    for (size_t i = 0; i < m.items.size(); ++i) {
      const int o = m.items[i];
      std::string e;
      if (!m.subset)
        e = checkObject(w, j[i], o);
      else
        e = checkId(j[i], o >= 0 ? w.expectId(o) : T(m.type).id(T(m.type).makeEmpty(), 0));
      REQUIRE(e.empty(), "element " << i << " of a " << (m.subset ? "subset " : "") << "collection of " << T(m.type).name << " " << e);
    }
    if (m.items.size() > 1) ++seen;
    if (m.subset && !m.items.empty()) c.label("subset collections with elements");
  }
  if (rel && seen > 2) c.nontrivial();
  if (rel) c.label("objects with relations");
}
template <typename V>
static void userJson(Case& c) {
  podio::UserDataCollection<V> u;
  std::vector<u64> v;
  const size_t n = c.count(30);
  for (size_t i = 0; i < n; ++i) {
    v.push_back(std::is_floating_point_v<V> ? c.floatBits(int(sizeof(V)), false) : c.bits(int(sizeof(V))));
    u.push_back(udFrom<V>(v.back()));
  }
  const json j0 = u;
  const auto j = parse(j0.dump());
  REQUIRE(j.is_array() && j.size() == n, "a user data collection of " << n << " elements becomes " << j.dump());
  constexpr bool fp = std::is_floating_point_v<V>;
  const LK k = fp ? (sizeof(V) == 4 ? LK::F32 : LK::F64) : std::is_signed_v<V> ? (sizeof(V) == 1 ? LK::Char : sizeof(V) == 2 ? LK::I16 : sizeof(V) == 4 ? LK::I32 : LK::I64) : LK::U64;
  for (size_t i = 0; i < n; ++i) {
    auto e = checkNumber(j[i], k, v[i]);
    REQUIRE(e.empty(), "element " << i << " of " << u.getTypeName() << " " << e << ": " << j[i].dump() << " for " << hex(v[i]));
  }
  if (n > 1) c.nontrivial();
}
PBT_PROP(user_data_becomes_json_numbers) {
  switch (c.draw(10)) {
  case 0:
    return userJson<float>(c);
  case 1:
    return userJson<double>(c);
  case 2:
    return userJson<int8_t>(c);
  case 3:
    return userJson<int16_t>(c);
  case 4:
    return userJson<int32_t>(c);
  case 5:
    return userJson<int64_t>(c);
  case 6:
    return userJson<uint8_t>(c);
  case 7:
    return userJson<uint16_t>(c);
  case 8:
    return userJson<uint32_t>(c);
  default:
    return userJson<uint64_t>(c);
  }
}
#else
PBT_PROP(printing_shows_the_content_and_keeps_the_stream) {
  Scene s(c);
  auto& w = *s.w;
  // characters that can be told apart from what separates the words
  if (!s.second && c.chance(1, 2))
    for (auto o : w.liveObjs()) {
      auto h = w.handleOf(o, true);
      if (!h) continue;
      const auto& t = T(w.objs[size_t(o)].type);
      for (size_t l = 0; l < t.leaves.size(); ++l)
        if (t.leaves[l].kind == LK::Char && t.leaves[l].nSet > 0) {
          const u64 ch = 'A' + c.below(26);
          t.setLeaf(h, int(l), 0, ch);
          w.objs[size_t(o)].leaves[l] = ch;
        }
    }
  size_t judged = 0, rel = 0;
  for (size_t i = 0; i < 3; ++i) {
    auto [o, h] = s.object(c);
    if (o == NONE) break;
    const auto f = genFormat(c);
    const auto& m = w.objs[size_t(o)];
    const auto what = "printing " + std::string(h.mut() ? "a mutable " : "") + T(m.type).name + " with " + show(f);
    Out out(f);
    T(m.type).print(out, h);
    c.log(what, ": ", out.str());
    checkState(out, f, what);
    Reader e{w, f, words(out.str()), 0, true, ""};
    const bool ok = e.object(o, m.type);
    if (separable(f) && e.known) {
      REQUIRE(ok, what << " " << e.error << ": " << out.str());
      REQUIRE(e.i == e.got.size(), what << " shows more than the object: " << out.str());
      ++judged;
      for (auto x : m.ones) rel += x >= 0;
      for (auto& x : m.manys) rel += x.size();
    }
  }
  // what is not there
  {
    const int t = int(c.below(size_t(nTypes())));
    const auto f = genFormat(c);
    const auto what = std::string("printing an unavailable ") + T(t).name + " with " + show(f);
    Out out(f);
    T(t).print(out, T(t).makeEmpty());
    checkState(out, f, what);
    REQUIRE(!separable(f) || out.str().find("not available") != std::string::npos, what << " does not say so: " << out.str());
  }
  for (auto k : s.colls()) {
    const auto f = genFormat(c);
    const auto& m = w.cm[size_t(k)];
    const auto what = "printing a collection of " + std::string(T(m.type).name) + " with " + show(f);
    Out out(f);
    const int variant = int(c.below(4));
    if (variant == 3)
      w.raw[size_t(k)]->print(out, c.flip());
    else
      T(m.type).printColl(out, *w.raw[size_t(k)], variant);
    c.log(what, ": ", out.str());
    checkState(out, f, what);
    const auto e = collWords(w, k, f);
    if (separable(f) && e.known) {
      auto text = out.str();
      const auto nl = text.find('\n');
      REQUIRE(nl != std::string::npos, what << " has no title");
      for (size_t n = 0; n < T(m.type).memberNames.size(); ++n)
        if (!isArray(T(m.type), n)) REQUIRE(text.substr(0, nl).find(T(m.type).memberNames[n]) != std::string::npos, what << " has no column title for " << T(m.type).memberNames[n]);
      compare(text.substr(nl + 1), e, what);
      if (!m.items.empty()) ++judged;
    }
    if (m.subset && !m.items.empty()) c.label("subset collections with elements");
  }
  if (judged > 2 && rel) c.nontrivial();
  if (rel) c.label("objects with relations");
}

PBT_PROP(printing_user_data_ids_and_parameters) {
  const auto f = genFormat(c);
  Words e{f, "", true};
  switch (c.draw(3)) {
  case 0: {
    const auto& u = uds()[c.below(uds().size())];
    const size_t n = c.chance(1, 25) ? 90 + c.draw(300) : c.count(10);
    std::vector<u64> v;
    e.lit("[");
    for (size_t i = 0; i < n; ++i) {
      v.push_back(u.isFloat ? c.floatBits(u.width, false) : c.bits(u.width));
      const std::string nm = u.name;
      const auto x = v.back();
      if (u.isFloat)
        e.leaf(u.width == 4 ? LK::F32 : LK::F64, x);
      else if (u.width == 1) // these are printed as characters
        e.known = false;
      else if (nm.find("uint") != std::string::npos)
        e.leaf(u.width == 2 ? LK::U16 : u.width == 4 ? LK::U32 : LK::U64, x);
      else
        e.leaf(u.width == 2 ? LK::I16 : u.width == 4 ? LK::I32 : LK::I64, x);
    }
    e.lit("]");
    auto p = u.make(v);
    Out out(f);
    p->print(out, c.flip());
    c.log(out.str());
    const auto what = std::string("printing ") + u.name + " with " + show(f);
    checkState(out, f, what);
    auto text = out.str();
    REQUIRE(f.fill != ' ' || f.width || text.front() == '[', what << ": " << text);
    if (separable(f) && e.known) {
      std::string spaced;
      for (char ch : text) spaced += ch == ',' ? std::string(" ") : ch == '[' || ch == ']' ? std::string(" ") + ch + " " : std::string(1, ch);
      compare(spaced, e, what);
    }
    if (n > 2) c.nontrivial();
    return;
  }
  case 1: {
    podio::ObjectID id;
    id.index = udFrom<int>(c.bits(4));
    id.collectionID = udFrom<uint32_t>(c.bits(4));
    Out out(f);
    out << id;
    const auto what = "printing an object ID with " + show(f);
    checkState(out, f, what);
    e.id(id);
    if (separable(f)) {
      REQUIRE(out.str().find('|') != std::string::npos, what << ": " << out.str());
      compare(out.str(), e, what);
    }
    c.nontrivial();
    return;
  }
  default: {
    podio::GenericParameters p;
    std::vector<std::string> shown;
    const size_t n = c.below(6);
    std::map<std::string, std::string> want[4];
    for (size_t i = 0; i < n; ++i) {
      const auto k = c.ident(5);
      const size_t m = c.count(4);
      std::string txt;
      std::ostringstream o;
      o.precision(f.precision);
      // (the table is adjusted to the left, and every value is printed with the flags of the stream otherwise)
      o.flags((f.flags & ~std::ios::adjustfield) | std::ios::left);
      auto fill = [&](auto gen) {
        std::vector<decltype(gen())> v;
        o << "[";
        for (size_t j = 0; j < m; ++j) {
          v.push_back(gen());
          o << (j ? ", " : "") << v.back();
        }
        o << "]";
        p.set(k, v);
        return o.str();
      };
      switch (c.draw(4)) {
      case 0:
        want[0][k] = fill([&] { return udFrom<int>(c.bits(4)); });
        break;
      case 1:
        want[1][k] = fill([&] { return float(c.finiteDouble()); });
        break;
      case 2:
        want[2][k] = fill([&] { return c.finiteDouble(); });
        break;
      default:
        want[3][k] = fill([&] { return c.ident(6); });
      }
    }
    Out out(f);
    p.print(out, c.flip());
    c.log(out.str());
    const auto what = "printing parameters with " + show(f);
    checkState(out, f, what);
    const auto text = out.str();
    if (separable(f)) {
      size_t pos = 0;
      const char* titles[] = {"int parameters", "float parameters", "double parameters", "string parameters"};
      for (int t = 0; t < 4; ++t) {
        const auto at = text.find(titles[t], pos);
        REQUIRE(at != std::string::npos, what << ": no table of " << titles[t]);
        const auto end = t < 3 ? text.find(titles[t + 1], at) : text.size();
        const auto part = text.substr(at, end == std::string::npos ? std::string::npos : end - at);
        for (auto& [k, v] : want[t]) {
          bool ok = false;
          std::istringstream in(part);
          for (std::string line; std::getline(in, line);)
            ok = ok || (line.substr(0, k.size()) == k && line.size() >= v.size() && line.substr(line.size() - v.size()) == v && words(line).front() == k);
          REQUIRE(ok, what << ": " << k << " = " << v << " is not in the table of " << titles[t] << ": " << text);
        }
        pos = at + 1;
      }
    }
    if (n > 2) c.nontrivial();
  }
  }
}
#endif
