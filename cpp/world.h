// A reference model of objects, handles and collections, and the generators that drive the real ones alongside it
#pragma once
#include "erased.h"
#include "pbt.h"
#include <algorithm>
#include <map>
#include <set>

namespace wm {
using er::Coll;
using er::CollPtr;
using er::Handle;
using er::LK;
using er::u64;
using pbt::Case;

constexpr int NONE = -1;  // relation never set
constexpr int EMPTY = -2; // relation set to an unavailable object
constexpr int DEAD = -3;  // relation to an object that does not exist any more: must not be touched
constexpr uint32_t UNTRACKED_ID = uint32_t(-1);

inline const er::TypeOps& T(int t) { return *er::types()[size_t(t)]; }
inline int nTypes() { return int(er::types().size()); }
inline std::string hex(u64 v) {
  std::ostringstream o;
  o << "0x" << std::hex << v;
  return o.str();
}
inline std::string str(const podio::ObjectID& i) {
  std::ostringstream o;
  o << "(" << i.index << ", " << hex(i.collectionID) << ")";
  return o.str();
}
inline u64 genLeaf(Case& c, LK k, bool finite = false) {
  switch (k) {
  case LK::Bool:
    return c.draw(2);
  case LK::F32:
    return c.floatBits(4, finite);
  case LK::F64:
    return c.floatBits(8, finite);
  default:
    return c.bits(er::widthOf(k));
  }
}
inline std::vector<u64> genVec(Case& c, const er::VecInfo& v, bool finite = false) {
  std::vector<u64> r;
  for (auto& l : v.leaves) r.push_back(genLeaf(c, l.kind, finite));
  return r;
}

struct Obj {
  int type{};
  std::vector<u64> leaves;
  std::vector<std::vector<std::vector<u64>>> vecs;
  std::vector<int> ones;
  std::vector<std::vector<int>> manys;
  int coll{-1}; // owning collection
  int pos{-1};
  bool alive{true};
};
inline Obj defaultObj(int t) {
  Obj o;
  o.type = t;
  for (auto& l : T(t).leaves) o.leaves.push_back(l.def);
  o.vecs.resize(T(t).vecs.size());
  o.ones.assign(T(t).ones.size(), NONE);
  o.manys.resize(T(t).manys.size());
  return o;
}
inline std::vector<u64> genLeaves(Case& c, int t, bool finite = false) {
  std::vector<u64> r;
  for (auto& l : T(t).leaves) r.push_back(genLeaf(c, l.kind, finite));
  return r;
}

struct CollM {
  int type{};
  bool subset{false};
  std::vector<int> items; // object numbers, in order
  std::string name;
  uint32_t id{UNTRACKED_ID};
  bool alive{true};
};

/// how a relation target is looked up: returns "" if `got` is the right object
using TargetCheck = std::function<std::string(const Handle& got, int target)>;

/// compares everything that can be read from one object with the model; "" if it agrees
inline std::string diffObj(const Handle& h, const Obj& m, const TargetCheck& tc) {
  const auto& t = T(m.type);
  auto where = [&](const std::string& s) { return std::string(t.name) + (h.mut() ? " (mutable) " : " ") + s; };
  if (!t.available(h)) return where("is not available");
  for (size_t l = 0; l < t.leaves.size(); ++l)
    for (int v = 0; v < t.leaves[l].nGet; ++v) {
      u64 g = t.leaf(h, int(l), v);
      if (g != m.leaves[l])
        return where(std::string("member ") + t.leaves[l].path + " reads " + hex(g) + " instead of " + hex(m.leaves[l]) + " (accessor " + std::to_string(v) + ")");
    }
  for (size_t v = 0; v < t.vecs.size(); ++v) {
    const size_t n = m.vecs[v].size();
    const std::string nm = std::string("vector member ") + t.vecs[v].name;
    if (t.vecSize(h, int(v)) != n) return where(nm + " has size " + std::to_string(t.vecSize(h, int(v))) + " instead of " + std::to_string(n));
    if (t.vecRangeLen(h, int(v)) != n) return where(nm + ": its range is inconsistent");
    for (size_t k = 0; k < n; ++k)
      for (int var = 0; var < 4; ++var)
        if (t.vecGet(h, int(v), k, var) != m.vecs[v][k]) return where(nm + " differs at " + std::to_string(k) + " (accessor " + std::to_string(var) + ")");
    for (int w : {0, 2}) {
      try {
        t.outOfBounds(h, w, int(v), n);
        return where(nm + ": reading past the end is not refused");
      } catch (const std::out_of_range&) {
      }
    }
  }
  auto target = [&](const Handle& got, int want, const std::string& nm) -> std::string {
    if (want == DEAD) return "";
    const bool av = T(got.type()).available(got);
    if (want < 0) return av ? where(nm + " is set although it should not be") : "";
    return [&] {
      auto s = tc(got, want);
      return s.empty() ? s : where(nm + ": " + s);
    }();
  };
  for (size_t r = 0; r < t.ones.size(); ++r) {
    if (m.ones[r] == DEAD) continue;
    const auto got = t.one(h, int(r));
    if (auto s = target(got, m.ones[r], std::string("relation ") + t.ones[r].name); !s.empty()) return s;
  }
  for (size_t r = 0; r < t.manys.size(); ++r) {
    const size_t n = m.manys[r].size();
    const std::string nm = std::string("relation ") + t.manys[r].name;
    if (t.manySize(h, int(r)) != n) return where(nm + " has size " + std::to_string(t.manySize(h, int(r))) + " instead of " + std::to_string(n));
    if (t.manyRangeLen(h, int(r)) != n) return where(nm + ": its range is inconsistent");
    for (size_t k = 0; k < n; ++k) {
      if (m.manys[r][k] == DEAD) continue;
      for (int var = 0; var < 4; ++var)
        if (auto s = target(t.manyGet(h, int(r), k, var), m.manys[r][k], nm + "[" + std::to_string(k) + "] (accessor " + std::to_string(var) + ")"); !s.empty())
          return s;
    }
    for (int w : {1, 3}) {
      try {
        t.outOfBounds(h, w, int(r), n);
        return where(nm + ": reading past the end is not refused");
      } catch (const std::out_of_range&) {
      }
    }
  }
  return "";
}

struct Hd {
  Handle h;
  int obj; // NONE: an unavailable handle
};

struct World {
  Case& c;
  std::vector<Obj> objs;
  std::vector<CollM> cm;
  std::vector<CollPtr> cs;     // collections owned here
  std::vector<Coll*> raw;      // all collections (some may be owned by a frame; null: not retrieved yet)
  std::vector<Hd> pool;
  bool finite{false};

  explicit World(Case& cc) : c(cc) {}
  World(const World&) = delete;

  // ------------------------------------------------------------ lookups
  /// a handle to a live object, or a null handle if none can be made
  Handle handleOf(int o, bool mut) {
    auto& m = objs[size_t(o)];
    if (m.coll >= 0) return raw[size_t(m.coll)] ? T(m.type).get(*raw[size_t(m.coll)], size_t(m.pos), mut ? 2 : 0) : Handle{};
    for (auto& p : pool)
      if (p.obj == o && (!mut || p.h.mut())) return mut ? p.h : T(m.type).toImmutable(p.h);
    return {};
  }
  std::vector<int> liveObjs(int type = -1) const {
    std::vector<int> r;
    for (size_t i = 0; i < objs.size(); ++i)
      if (objs[i].alive && (type < 0 || objs[i].type == type)) r.push_back(int(i));
    return r;
  }
  std::vector<int> liveColls(int type = -1, int subset = -1) const {
    std::vector<int> r;
    for (size_t i = 0; i < cm.size(); ++i)
      if (cm[i].alive && (type < 0 || cm[i].type == type) && (subset < 0 || cm[i].subset == (subset == 1))) r.push_back(int(i));
    return r;
  }
  std::vector<int> tracked(int type = -1) const {
    std::vector<int> r;
    for (size_t i = 0; i < objs.size(); ++i)
      if (objs[i].alive && objs[i].coll >= 0 && (type < 0 || objs[i].type == type)) r.push_back(int(i));
    return r;
  }
  podio::ObjectID expectId(int o) const {
    const auto& m = objs[size_t(o)];
    podio::ObjectID r;
    if (m.coll >= 0) {
      r.index = m.pos;
      r.collectionID = cm[size_t(m.coll)].id;
    }
    return r;
  }

  // ------------------------------------------------------------ operations
  int newColl(int type) {
    CollM m;
    m.type = type;
    cm.push_back(m);
    cs.push_back(T(type).newColl());
    raw.push_back(cs.back().get());
    return int(cs.size()) - 1;
  }
  int track(int coll, Obj o, Handle h) {
    o.coll = coll;
    o.pos = int(cm[size_t(coll)].items.size());
    objs.push_back(std::move(o));
    const int id = int(objs.size()) - 1;
    cm[size_t(coll)].items.push_back(id);
    pool.push_back({std::move(h), id});
    return id;
  }
  int create(int coll) { return track(coll, defaultObj(cm[size_t(coll)].type), T(cm[size_t(coll)].type).create(*raw[size_t(coll)])); }
  int createArgs(int coll) {
    auto o = defaultObj(cm[size_t(coll)].type);
    o.leaves = genLeaves(c, o.type, finite);
    auto h = T(o.type).createArgs(*raw[size_t(coll)], o.leaves);
    return track(coll, std::move(o), std::move(h));
  }
  int newFree(int type) {
    auto o = defaultObj(type);
    Handle h;
    if (c.flip()) {
      h = T(type).newMutable();
    } else {
      o.leaves = genLeaves(c, type, finite);
      h = T(type).newInit(true, o.leaves);
    }
    objs.push_back(std::move(o));
    pool.push_back({std::move(h), int(objs.size()) - 1});
    return int(objs.size()) - 1;
  }
  void pushFree(int coll, int o, const Handle& h) {
    auto& m = objs[size_t(o)];
    T(m.type).push(*raw[size_t(coll)], h);
    m.coll = coll;
    m.pos = int(cm[size_t(coll)].items.size());
    cm[size_t(coll)].items.push_back(o);
  }
  void setLeaf(int o, Handle& h, int leaf, int variant) {
    auto& m = objs[size_t(o)];
    const u64 v = genLeaf(c, T(m.type).leaves[size_t(leaf)].kind, finite);
    T(m.type).setLeaf(h, leaf, variant, v);
    m.leaves[size_t(leaf)] = v;
  }
  void vecAdd(int o, Handle& h, int v) {
    auto& m = objs[size_t(o)];
    auto e = genVec(c, T(m.type).vecs[size_t(v)], finite);
    T(m.type).vecAdd(h, v, e);
    m.vecs[size_t(v)].push_back(e);
  }
  /// may x hold a handle to y? (free objects may not form cycles of owning handles)
  bool mayRelate(int x, int y) const { return objs[size_t(x)].coll >= 0 || objs[size_t(y)].coll >= 0 || y < x; }
  std::vector<int> targetsFor(int x, const er::RelInfo& r, bool onlyTracked) const {
    std::vector<int> v;
    for (size_t i = 0; i < objs.size(); ++i)
      if (objs[i].alive && std::find(r.targets.begin(), r.targets.end(), objs[i].type) != r.targets.end() && (!onlyTracked || objs[i].coll >= 0) &&
          mayRelate(x, int(i)))
        v.push_back(int(i));
    return v;
  }
  bool setOne(int o, Handle& h, int r, bool onlyTracked) {
    auto& m = objs[size_t(o)];
    const auto& ri = T(m.type).ones[size_t(r)];
    auto ts = targetsFor(o, ri, onlyTracked);
    if (ts.empty() || c.chance(1, 10)) {
      const int tt = ri.targets[c.below(ri.targets.size())];
      T(m.type).setOne(h, r, T(tt).makeEmpty());
      m.ones[size_t(r)] = EMPTY;
      return true;
    }
    const int y = c.pick(ts);
    auto th = handleOf(y, c.flip());
    if (!th) th = handleOf(y, false);
    if (!th) return false;
    T(m.type).setOne(h, r, th);
    m.ones[size_t(r)] = y;
    return true;
  }
  bool manyAdd(int o, Handle& h, int r, bool onlyTracked) {
    auto& m = objs[size_t(o)];
    auto ts = targetsFor(o, T(m.type).manys[size_t(r)], onlyTracked);
    if (ts.empty()) return false;
    const int y = c.pick(ts);
    auto th = handleOf(y, c.flip());
    if (!th) th = handleOf(y, false);
    if (!th) return false;
    T(m.type).manyAdd(h, r, th);
    m.manys[size_t(r)].push_back(y);
    return true;
  }
  /// one random modification of object o through handle h; false if the type has nothing to modify
  /// a long vector member or to-many relation
  void lengthen(int o, Handle& h, bool onlyTracked, size_t n) {
    const auto& t = T(objs[size_t(o)].type);
    const size_t nv = t.vecs.size(), nm = t.manys.size();
    if (nv + nm == 0) return;
    const size_t w = c.below(nv + nm);
    c.label("long vector member or relation");
    for (size_t i = 0; i < n; ++i) {
      if (w < nv)
        vecAdd(o, h, int(w));
      else
        manyAdd(o, h, int(w - nv), onlyTracked);
    }
  }
  bool modify(int o, Handle& h, bool onlyTracked) {
    const auto& t = T(objs[size_t(o)].type);
    const size_t nl = t.leaves.size(), nv = t.vecs.size(), n1 = t.ones.size(), nm = t.manys.size();
    // every kind of member gets its share
    std::vector<int> kinds;
    if (nl) kinds.push_back(0);
    if (nv) kinds.push_back(1);
    if (n1) kinds.push_back(2);
    if (nm) kinds.push_back(3);
    if (kinds.empty()) return false;
    switch (c.pick(kinds)) {
    case 0: {
      const int l = int(c.below(nl));
      setLeaf(o, h, l, int(c.below(size_t(t.leaves[size_t(l)].nSet))));
      return true;
    }
    case 1:
      vecAdd(o, h, int(c.below(nv)));
      return true;
    case 2:
      return setOne(o, h, int(c.below(n1)), onlyTracked);
    default:
      return manyAdd(o, h, int(c.below(nm)), onlyTracked);
    }
  }
  /// forget everything that refers to dead objects
  void kill(int o) {
    objs[size_t(o)].alive = false;
    objs[size_t(o)].coll = -1;
    for (auto& x : objs) {
      for (auto& r : x.ones)
        if (r == o) r = DEAD;
      for (auto& rs : x.manys)
        for (auto& r : rs)
          if (r == o) r = DEAD;
    }
    for (auto& k : cm)
      if (k.subset)
        for (auto& i : k.items)
          if (i == o) i = DEAD;
  }
  /// free objects that nothing refers to any more are gone
  void collectGarbage() {
    for (;;) {
      bool any = false;
      for (size_t i = 0; i < objs.size(); ++i) {
        if (!objs[i].alive || objs[i].coll >= 0) continue;
        bool ref = false;
        for (auto& p : pool)
          if (p.obj == int(i)) ref = true;
        for (auto& x : objs) {
          if (!x.alive) continue;
          for (auto r : x.ones) ref = ref || r == int(i);
          for (auto& rs : x.manys)
            for (auto r : rs) ref = ref || r == int(i);
        }
        if (!ref) {
          kill(int(i));
          any = true;
        }
      }
      if (!any) return;
    }
  }
  void clearItems(int coll) {
    auto& k = cm[size_t(coll)];
    if (!k.subset)
      for (auto o : k.items) kill(o);
    k.items.clear();
    collectGarbage();
  }
  void clearColl(int coll) {
    raw[size_t(coll)]->clear();
    clearItems(coll);
  }
  void destroyColl(int coll) {
    cs[size_t(coll)].reset();
    raw[size_t(coll)] = nullptr;
    cm[size_t(coll)].alive = false;
    clearItems(coll);
  }

  // ------------------------------------------------------------ checks
  std::string checkTarget(const Handle& got, int want) {
    const auto& m = objs[size_t(want)];
    if (got.type() != m.type) return "refers to an object of type " + std::string(T(got.type()).name);
    if (!T(m.type).available(got)) return "is not available";
    if (!(T(m.type).id(got, 0) == expectId(want))) return "has ID " + str(T(m.type).id(got, 0)) + " instead of " + str(expectId(want));
    if (auto ref = handleOf(want, false); ref) {
      if (!T(m.type).eq(got, ref)) return "is another object than the one that was set";
    }
    for (size_t l = 0; l < m.leaves.size(); ++l)
      if (T(m.type).leaf(got, int(l), 0) != m.leaves[l]) return "has other contents than the object that was set";
    return "";
  }
  TargetCheck targetCheck() {
    return [this](const Handle& g, int w) { return checkTarget(g, w); };
  }
  void checkHandle(const Handle& h, int o, const std::string& how) {
    const auto& m = objs[size_t(o)];
    for (int v = 0; v < 2; ++v)
      REQUIRE(T(m.type).id(h, v) == expectId(o), how << ": " << T(m.type).name << " has ID " << str(T(m.type).id(h, v)) << " instead of " << str(expectId(o)));
    auto s = diffObj(h, m, targetCheck());
    REQUIRE(s.empty(), how << ": " << s);
  }
  void checkColl(int k, bool deep) {
    auto& m = cm[size_t(k)];
    auto& cc = *raw[size_t(k)];
    const auto& t = T(m.type);
    const std::string nm = "collection " + std::to_string(k) + " of " + t.name;
    REQUIRE(cc.size() == m.items.size(), nm << " has size " << cc.size() << " instead of " << m.items.size());
    REQUIRE(cc.empty() == m.items.empty(), nm << ": empty() is wrong");
    REQUIRE(cc.isSubsetCollection() == m.subset, nm << ": isSubsetCollection() is wrong");
    REQUIRE(cc.getID() == m.id, nm << " has ID " << hex(cc.getID()) << " instead of " << hex(m.id));
    REQUIRE(cc.hasID() == (m.id != UNTRACKED_ID && m.id != uint32_t(-2)), nm << ": hasID() is wrong");
    REQUIRE(t.maxSize(cc) >= m.items.size(), nm << ": max_size() is wrong");
    REQUIRE(cc.getTypeName() == t.typeNames(1) && cc.getValueTypeName() == t.typeNames(2) && cc.getDataTypeName() == t.typeNames(3), nm << ": type names");
    bool anyDead = false, anyMissing = false;
    for (auto o : m.items) anyDead = anyDead || o == DEAD, anyMissing = anyMissing || o == NONE;
    for (size_t i = 0; i < m.items.size(); ++i) {
      if (m.items[i] == DEAD) continue;
      if (m.items[i] == NONE) {
        for (int v = 0; v < 4; ++v) REQUIRE(!t.available(t.get(cc, i, v)), nm << " element " << i << " is available although its collection was not stored");
        continue;
      }
      for (int v = 0; v < 4; ++v) {
        auto h = t.get(cc, i, v);
        if (deep && v < 4) checkHandle(h, m.items[i], nm + " element " + std::to_string(i));
        REQUIRE(t.id(h, 0) == expectId(m.items[i]), nm << " element " << i << " has the wrong ID " << str(t.id(h, 0)));
      }
    }
    for (int v : {1, 3}) {
      for (size_t past : {m.items.size(), m.items.size() + 1, size_t(-1)}) {
        REQUIRE_THROWS_AS((void)t.get(cc, past, v), std::out_of_range, nm << ": at() past the end");
      }
    }
    if (anyDead) return;
    for (int v = 0; v < er::TypeOps::nIter; ++v) {
      auto hs = t.iterate(cc, v);
      REQUIRE(hs.size() == m.items.size(), nm << ": iteration " << v << " yields " << hs.size() << " elements");
      for (size_t i = 0; i < hs.size(); ++i) {
        REQUIRE(t.eq(hs[i], t.get(cc, i, 0)), nm << ": iteration " << v << " yields another object at " << i);
        if (m.items[i] == NONE) continue;
        REQUIRE(t.id(hs[i], 0) == expectId(m.items[i]), nm << ": iteration " << v << " yields the wrong object at " << i);
      }
    }
    if (!deep || anyMissing) return;
    for (size_t l = 0; l < t.leaves.size(); ++l) {
      for (size_t n : {size_t(0), size_t(1), m.items.size() / 2, m.items.size(), m.items.size() + 3}) {
        auto got = t.colGet(cc, int(l), n);
        const size_t want = n == 0 ? m.items.size() : std::min(n, m.items.size());
        REQUIRE(got.size() == want, nm << ": column " << t.leaves[l].path << " of " << n << " has " << got.size() << " entries");
        for (size_t i = 0; i < want; ++i)
          REQUIRE(got[i] == objs[size_t(m.items[i])].leaves[l], nm << ": column " << t.leaves[l].path << " differs at " << i);
      }
    }
  }
  void checkAll(bool deep = true) {
    for (auto k : liveColls())
      if (raw[size_t(k)]) checkColl(k, deep);
    for (size_t i = 0; i < pool.size(); ++i) {
      auto& p = pool[i];
      if (p.obj == NONE) {
        REQUIRE(!T(p.h.type()).available(p.h), "an empty handle is available");
        REQUIRE(T(p.h.type()).id(p.h, 0) == podio::ObjectID{}, "an empty handle has an ID");
      } else if (objs[size_t(p.obj)].alive)
        checkHandle(p.h, p.obj, "handle " + std::to_string(i));
    }
  }
};
} // namespace wm
