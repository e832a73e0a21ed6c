// Equality, ordering and hashing of handles (C15); collections as ranges (C11)
#include "world.h"
#include "podio/ObjectID.h"
#include <unordered_map>
#include <unordered_set>
using namespace wm;

namespace {
struct Key {
  int type;
  int obj; // NONE: unavailable
  bool operator==(const Key&) const = default;
};
struct Ent {
  Handle h;
  Key k;
  const char* how;
};
struct Maker : World {
  explicit Maker(Case& cc) : World(cc) {}
  std::vector<Ent> ents;
  void build() {
    const size_t nt = 1 + c.below(3);
    std::vector<int> ks;
    for (size_t i = 0; i < nt; ++i) {
      int t = int(c.below(size_t(nTypes())));
      if (i > 0 && c.flip()) {
        const auto& u = T(cm[size_t(c.pick(ks))].type);
        std::vector<int> ts;
        for (auto& r : u.ones) ts.insert(ts.end(), r.targets.begin(), r.targets.end());
        for (auto& r : u.manys) ts.insert(ts.end(), r.targets.begin(), r.targets.end());
        if (!ts.empty()) t = c.pick(ts);
      }
      const int k = newColl(t);
      ks.push_back(k);
      for (size_t j = 0, n = c.count(5); j < n; ++j) create(k);
      for (size_t j = 0, n = c.below(3); j < n; ++j) {
        const int o = newFree(t);
        if (c.flip()) pushFree(k, o, Handle(pool.back().h));
      }
    }
    for (size_t i = 0; i < 12 && !objs.empty(); ++i) {
      const int o = int(c.below(objs.size()));
      auto h = handleOf(o, true);
      if (h) modify(o, h, false);
    }
    const size_t ns = c.below(3);
    for (size_t i = 0; i < ns; ++i) {
      const int of = c.pick(ks);
      const int k = newColl(cm[size_t(of)].type);
      raw[size_t(k)]->setSubsetCollection();
      cm[size_t(k)].subset = true;
      auto cand = tracked(cm[size_t(k)].type);
      for (size_t j = 0, n = cand.empty() ? 0 : c.count(5); j < n; ++j) {
        const int o = c.pick(cand);
        T(cm[size_t(k)].type).push(*raw[size_t(k)], handleOf(o, c.flip()));
        cm[size_t(k)].items.push_back(o);
      }
    }
  }
  void add(Handle h, int o, const char* how) {
    const int t = h.type();
    ents.push_back({std::move(h), {t, o < 0 ? NONE : o}, how});
  }
  void collect() {
    for (auto& p : pool) add(p.h, p.obj, "kept");
    for (size_t k = 0; k < cm.size(); ++k) {
      const auto& t = T(cm[k].type);
      for (size_t i = 0; i < cm[k].items.size(); ++i) {
        const int v = int(c.draw(4));
        add(t.get(*raw[k], i, v), cm[k].items[i], cm[k].subset ? "from a subset collection" : "from a collection");
      }
      if (c.flip()) {
        auto hs = t.iterate(*raw[k], int(c.draw(er::TypeOps::nIter)));
        for (size_t i = 0; i < hs.size(); ++i) add(hs[i], cm[k].items[i], "by iteration");
      }
    }
    for (size_t o = 0; o < objs.size(); ++o) {
      auto h = handleOf(int(o), c.flip());
      if (!h) h = handleOf(int(o), false);
      if (!h) continue;
      const auto& t = T(objs[o].type);
      for (size_t r = 0; r < t.ones.size(); ++r) {
        auto g = t.one(h, int(r));
        add(g, objs[o].ones[r], "to-one relation");
      }
      for (size_t r = 0; r < t.manys.size(); ++r)
        for (size_t k = 0; k < objs[o].manys[r].size(); ++k) add(t.manyGet(h, int(r), k, int(c.draw(4))), objs[o].manys[r][k], "to-many relation");
    }
    // derived ones
    for (size_t i = 0, n = c.below(12); i < n && !ents.empty(); ++i) {
      const size_t j = c.below(ents.size());
      auto e = ents[j];
      const auto& t = T(e.h.type());
      switch (c.draw(5)) {
      case 0:
        add(t.toImmutable(e.h), e.k.obj, "made immutable");
        break;
      case 1:
        if (e.k.obj >= 0) {
          auto o = objs[size_t(e.k.obj)];
          o.coll = o.pos = -1;
          objs.push_back(o);
          auto h = t.clone(e.h, 2);
          add(h, int(objs.size()) - 1, "clone");
          if (c.flip()) add(t.toImmutable(h), int(objs.size()) - 1, "clone, immutable");
        }
        break;
      case 2:
        add(t.makeEmpty(), NONE, "empty");
        break;
      case 3: {
        auto h = e.h;
        t.unlink(h);
        add(h, NONE, "unlinked");
        break;
      }
      default: {
        auto h = t.makeEmpty();
        t.assign(h, e.h, c.flip());
        add(h, e.k.obj, "assigned");
        break;
      }
      }
    }
  }
  void checkPairs() {
    std::map<std::pair<int, bool>, std::vector<size_t>> byType;
    for (size_t i = 0; i < ents.size(); ++i) byType[{ents[i].k.type, ents[i].h.mut()}].push_back(i);
    size_t same = 0, diff = 0;
    for (size_t i = 0; i < ents.size(); ++i)
      for (size_t j = 0; j < ents.size(); ++j) {
        const auto &a = ents[i], &b = ents[j];
        if (a.k.type != b.k.type) continue;
        const auto& t = T(a.k.type);
        const bool want = a.k == b.k;
        auto what = [&] { return std::string(t.name) + ": " + a.how + (a.h.mut() ? " (mutable)" : "") + " and " + b.how + (b.h.mut() ? " (mutable)" : ""); };
        REQUIRE(t.eq(a.h, b.h) == want, what() << ": == is " << !want);
        REQUIRE(t.ne(a.h, b.h) == !want, what() << ": != is " << want);
        if (want) {
          REQUIRE(t.hash(a.h) == t.hash(b.h), what() << ": equal but hashes differ");
          REQUIRE(t.id(a.h, 0) == t.id(b.h, 1), what() << ": equal but IDs differ");
          same += i != j;
        } else
          ++diff;
        if (t.lessSupported(a.h, b.h)) {
          const bool l = t.less(a.h, b.h), g = t.less(b.h, a.h);
          REQUIRE(!(l && g), what() << ": < holds both ways");
          REQUIRE((!l && !g) == want, what() << ": < is not consistent with ==");
        }
      }
    // transitivity: sorting by < gives an order in which < holds exactly for later ones
    for (auto& [tm, is] : byType) {
      const auto& t = T(tm.first);
      auto s = is;
      std::stable_sort(s.begin(), s.end(), [&](size_t a, size_t b) { return t.less(ents[a].h, ents[b].h); });
      for (size_t a = 0; a < s.size(); ++a)
        for (size_t b = a + 1; b < s.size(); ++b) {
          REQUIRE(!t.less(ents[s[b]].h, ents[s[a]].h), t.name << ": < is not transitive");
          if (b > a + 1 && t.less(ents[s[a]].h, ents[s[b - 1]].h)) REQUIRE(t.less(ents[s[a]].h, ents[s[b]].h), t.name << ": < is not transitive");
        }
    }
    if (same >= 3 && diff >= 3) c.nontrivial();
  }
};
struct EntHash {
  size_t operator()(const Handle& h) const { return T(h.type()).hash(h); }
};
struct EntEq {
  bool operator()(const Handle& a, const Handle& b) const { return T(a.type()).eq(a, b); }
};
struct EntLess {
  bool operator()(const Handle& a, const Handle& b) const { return T(a.type()).less(a, b); }
};
} // namespace

PBT_PROP_NOLEAK(equality_follows_identity) {
  Maker m(c);
  m.build();
  m.collect();
  if (m.ents.empty()) return;
  m.checkPairs();
  // containers keyed by handles, used across changes of the objects
  const int t = c.pick(m.ents).k.type;
  std::unordered_map<Handle, int, EntHash, EntEq> um;
  std::map<Handle, int, EntLess> im, mm;
  for (auto& e : m.ents) {
    if (e.k.type != t) continue;
    um.emplace(e.h, e.k.obj);
    (e.h.mut() ? mm : im).emplace(e.h, e.k.obj);
  }
  for (size_t i = 0; i < 10; ++i) {
    std::vector<int> os;
    for (size_t o = 0; o < m.objs.size(); ++o)
      if (m.objs[o].type == t && m.handleOf(int(o), true)) os.push_back(int(o));
    if (os.empty()) break;
    const int o = c.pick(os);
    auto h = m.handleOf(o, true);
    if (m.objs[size_t(o)].coll < 0 && c.flip()) {
      auto ks = m.liveColls(t, 0);
      m.pushFree(ks.empty() ? m.newColl(t) : c.pick(ks), o, h);
    } else if (c.chance(1, 4)) {
      auto ks = m.liveColls(t);
      if (!ks.empty()) {
        const int k = c.pick(ks);
        m.cs[size_t(k)] = T(t).moveConstruct(*m.cs[size_t(k)]);
        m.raw[size_t(k)] = m.cs[size_t(k)].get();
        m.raw[size_t(k)]->setID(uint32_t(1 + c.below(1000)));
        m.cm[size_t(k)].id = m.raw[size_t(k)]->getID();
      }
    } else
      m.modify(o, h, false);
  }
  for (auto& e : m.ents) {
    if (e.k.type != t) continue;
    const auto u = um.find(e.h);
    REQUIRE(u != um.end() && u->second == e.k.obj, "a handle is not found in an unordered container any more");
    auto& om = e.h.mut() ? mm : im;
    const auto o = om.find(e.h);
    REQUIRE(o != om.end() && o->second == e.k.obj, "a handle is not found in an ordered container any more");
  }
}

PBT_PROP(object_ids_compare_by_value) {
  std::vector<podio::ObjectID> ids;
  const size_t n = 1 + c.below(12);
  for (size_t i = 0; i < n; ++i) {
    podio::ObjectID x;
    if (!ids.empty() && c.flip()) x = c.pick(ids);
    if (c.flip()) x.index = int(c.bits(4));
    if (c.flip()) x.collectionID = uint32_t(c.bits(4));
    ids.push_back(x);
  }
  std::unordered_set<podio::ObjectID> us;
  std::set<std::pair<int, uint32_t>> model;
  size_t eq = 0;
  for (auto& a : ids) {
    for (auto& b : ids) {
      const bool want = a.index == b.index && a.collectionID == b.collectionID;
      REQUIRE((a == b) == want && (a != b) == !want, "equality of IDs " << str(a) << " and " << str(b));
      if (want) REQUIRE(std::hash<podio::ObjectID>{}(a) == std::hash<podio::ObjectID>{}(b), "hashes of equal IDs differ");
      eq += want;
    }
    us.insert(a);
    model.emplace(a.index, a.collectionID);
  }
  REQUIRE(us.size() == model.size(), "unordered set of IDs has the wrong size");
  REQUIRE(podio::ObjectID{} == (podio::ObjectID{-1, uint32_t(-1)}), "default ID");
  if (eq > n && model.size() >= 2) c.nontrivial();
}

PBT_PROP_NOLEAK(iterators_obey_random_access_laws) {
  Maker m(c);
  m.build();
  size_t steps = 0;
  for (auto k : m.liveColls()) {
    std::vector<long> script;
    for (size_t i = 0, n = 2 * c.below(14); i < n; ++i) script.push_back(long(c.below(1000)));
    steps += m.cm[size_t(k)].items.size() >= 2 ? script.size() : 0;
    auto s = T(m.cm[size_t(k)].type).iterLaws(*m.raw[size_t(k)], script);
    REQUIRE(s.empty(), "collection of " << T(m.cm[size_t(k)].type).name << " with " << m.cm[size_t(k)].items.size() << " elements: " << s);
    m.checkColl(k, false);
  }
  // building collections from ranges of handles
  std::vector<int> ts;
  for (auto& o : m.objs) ts.push_back(o.type);
  if (!ts.empty()) {
    const int t = c.pick(ts);
    const bool mut = c.flip();
    std::vector<Handle> hs;
    std::vector<int> os;
    bool refuse = false;
    for (size_t o = 0; o < m.objs.size(); ++o) {
      if (m.objs[o].type != t) continue;
      const bool tr = m.objs[o].coll >= 0;
      const bool fine = mut != tr;
      if (!fine && !c.chance(1, 12)) continue;
      auto h = m.handleOf(int(o), mut);
      if (!h) continue;
      refuse = refuse || !fine;
      hs.push_back(h);
      os.push_back(int(o));
      if (tr && !mut && c.flip()) hs.push_back(h), os.push_back(int(o));
    }
    const int variant = int(c.draw(3));
    if (refuse) {
      if (mut) { // the ones in front of it are taken over and lost
        bool first = m.objs[size_t(os[0])].coll >= 0;
        if (!first) return;
      }
      REQUIRE_THROWS_AS((void)T(t).from(hs, mut, variant), std::invalid_argument, "building a collection from unsuitable handles");
      c.label("range with an unsuitable handle");
    } else {
      auto nc = T(t).from(hs, mut, variant);
      m.cs.push_back(std::move(nc));
      m.raw.push_back(m.cs.back().get());
      CollM k;
      k.type = t;
      k.subset = !mut;
      k.items = os;
      m.cm.push_back(k);
      if (mut)
        for (size_t i = 0; i < os.size(); ++i) {
          m.objs[size_t(os[i])].coll = int(m.cm.size()) - 1;
          m.objs[size_t(os[i])].pos = int(i);
        }
      m.checkAll(true);
      c.label(mut ? "collection from mutable range" : "collection from immutable range");
    }
  }
  if (steps >= 4) c.nontrivial();
}
