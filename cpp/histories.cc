// Histories of operations on objects, handles and collections of all generated types (C01, C02, C06)
#include "world.h"

using namespace wm;

namespace {
struct Weights {
  unsigned w[20];
};
enum Op { NEWCOLL, CREATE, CREATEARGS, NEWFREE, PUSH, MODIFY, CLEAR, MOVECTOR, MOVEASSIGN, DESTROY, REFUSED, HANDLES, CLONE, NEWSUBSET, SUBPUSH, SETID, TOGGLE, RELHANDLE, FROM, ELEMHANDLE };
const char* opNames[] = {"new collection", "create", "create with values", "new free object", "push_back", "modify", "clear", "move-construct", "move-assign", "destroy collection",
                         "refused operation", "handle operation", "clone", "new subset", "push to subset", "setID", "toggle subset", "handle from relation", "from range", "handle from element"};

struct Driver : World {
  std::vector<int> types; // types used in this case
  std::vector<std::pair<CollPtr, int>> husks; // moved-from collections
  int shapes = 0;
  bool once = true; // things get large once

  explicit Driver(Case& cc, bool links = false) : World(cc) {
    const size_t n = links ? 0 : 1 + c.below(4);
    std::set<int> s;
    if (links) {
      std::vector<int> ls;
      for (int t = 0; t < nTypes(); ++t)
        if (T(t).isLink) ls.push_back(t);
      const int l = c.pick(ls);
      s.insert(l);
      for (auto& r : T(l).ones) s.insert(r.targets.begin(), r.targets.end());
    }
    for (size_t i = 0; i < n; ++i) s.insert(int(c.below(size_t(nTypes()))));
    // the targets of relations, so that relations can be set
    for (int t : std::set<int>(s)) {
      for (auto& r : T(t).ones)
        if (c.flip()) s.insert(r.targets[c.below(r.targets.size())]);
      for (auto& r : T(t).manys)
        if (c.flip()) s.insert(r.targets[c.below(r.targets.size())]);
    }
    types.assign(s.begin(), s.end());
    if (links)
      for (int t : s)
        if (T(t).isLink) types.insert(types.end(), s.size(), t);
  }
  /// a live pool handle to some live object (or -1)
  int livePool(bool mut, int wantTracked /* -1 any */) {
    std::vector<int> v;
    for (size_t i = 0; i < pool.size(); ++i) {
      const auto& p = pool[i];
      if (p.obj < 0 || !objs[size_t(p.obj)].alive) continue;
      if (mut && !p.h.mut()) continue;
      if (wantTracked >= 0 && (objs[size_t(p.obj)].coll >= 0) != (wantTracked == 1)) continue;
      v.push_back(int(i));
    }
    return v.empty() ? -1 : c.pick(v);
  }

  void refused() {
    switch (c.draw(6)) {
    case 0: { // an object that is already in a collection
      const int p = livePool(true, 1);
      if (p < 0) return;
      auto ks = liveColls(objs[size_t(pool[size_t(p)].obj)].type, 0);
      if (ks.empty()) return;
      const int k = c.pick(ks);
      c.log("  push tracked object into ", k);
      REQUIRE_THROWS_AS(T(cm[size_t(k)].type).push(*cs[size_t(k)], pool[size_t(p)].h), std::invalid_argument, "adding an object to a second collection");
      c.label("refused: tracked object");
      checkColl(k, true);
      return;
    }
    case 1: { // immutable handle into an ordinary collection
      const int p = livePool(false, -1);
      if (p < 0) return;
      const int t = objs[size_t(pool[size_t(p)].obj)].type;
      auto ks = liveColls(t, 0);
      if (ks.empty()) return;
      const int k = c.pick(ks);
      auto h = T(t).toImmutable(pool[size_t(p)].h);
      REQUIRE_THROWS_AS(T(t).push(*cs[size_t(k)], h), std::invalid_argument, "adding an immutable object to an ordinary collection");
      c.label("refused: immutable object");
      checkColl(k, true);
      return;
    }
    case 2: { // creating in a subset collection
      auto ks = liveColls(-1, 1);
      if (ks.empty()) return;
      const int k = c.pick(ks);
      const auto& t = T(cm[size_t(k)].type);
      REQUIRE_THROWS_AS((void)t.create(*cs[size_t(k)]), std::logic_error, "creating an element of a subset collection");
      auto vals = genLeaves(c, t.index, finite);
      REQUIRE_THROWS_AS((void)t.createArgs(*cs[size_t(k)], vals), std::logic_error, "creating an element of a subset collection");
      c.label("refused: create in subset");
      checkColl(k, false);
      return;
    }
    case 3: { // untracked object into a subset collection
      const int p = livePool(false, 0);
      if (p < 0) return;
      const int t = objs[size_t(pool[size_t(p)].obj)].type;
      auto ks = liveColls(t, 1);
      if (ks.empty()) return;
      const int k = c.pick(ks);
      REQUIRE_THROWS_AS(T(t).push(*cs[size_t(k)], pool[size_t(p)].h), std::invalid_argument, "adding an untracked object to a subset collection");
      c.label("refused: untracked in subset");
      checkColl(k, false);
      return;
    }
    default: { // changing the kind of a non-empty collection
      std::vector<int> ks;
      for (auto k : liveColls())
        if (!cm[size_t(k)].items.empty()) ks.push_back(k);
      if (ks.empty()) return;
      const int k = c.pick(ks);
      const bool now = cm[size_t(k)].subset;
      REQUIRE_THROWS_AS(cs[size_t(k)]->setSubsetCollection(!now), std::logic_error, "changing the kind of a non-empty collection");
      c.label("refused: kind of non-empty collection");
      checkColl(k, true);
      return;
    }
    }
  }

  void handleOps() {
    if (pool.empty()) return;
    const size_t i = c.below(pool.size());
    auto& p = pool[i];
    const auto& t = T(p.h.type());
    const bool alive = p.obj >= 0 && objs[size_t(p.obj)].alive;
    switch (c.draw(8)) {
    case 0: // copy
      if (pool.size() < 60) pool.push_back({p.h, p.obj});
      break;
    case 1: // immutable view
      if (pool.size() < 60) pool.push_back({t.toImmutable(p.h), p.obj});
      break;
    case 2:
    case 3: { // assignment
      std::vector<size_t> js;
      for (size_t j = 0; j < pool.size(); ++j)
        if (pool[j].h.type() == p.h.type() && (!p.h.mut() || pool[j].h.mut())) js.push_back(j);
      const size_t j = c.pick(js);
      t.assign(pool[i].h, pool[j].h, c.flip());
      pool[i].obj = pool[j].obj;
      c.label(i == j ? "self assignment" : "assignment");
      break;
    }
    case 4: { // swap
      std::vector<size_t> js;
      for (size_t j = 0; j < pool.size(); ++j)
        if (pool[j].h.type() == p.h.type() && pool[j].h.mut() == p.h.mut()) js.push_back(j);
      const size_t j = c.pick(js);
      t.swapHandles(pool[i].h, pool[j].h);
      std::swap(pool[i].obj, pool[j].obj);
      break;
    }
    case 5: // unlink
      t.unlink(p.h);
      p.obj = NONE;
      c.label("unlink");
      break;
    default: // drop
      if (alive) c.label("dropped handle");
      pool.erase(pool.begin() + long(i));
      break;
    }
    collectGarbage();
  }

  void step(const Weights& w) {
    std::vector<unsigned> v(w.w, w.w + 20);
    u64 tot = 0;
    for (auto x : v) tot += x;
    u64 r = c.draw(tot);
    int op = 0;
    while (r >= v[size_t(op)]) r -= v[size_t(op)], ++op;
    c.log("op ", opNames[op]);
    c.label(opNames[op]);
    auto anyColl = [&](int subset) {
      auto ks = liveColls(-1, subset);
      if (ks.empty()) {
        const int k = newColl(c.pick(types));
        if (subset == 1) {
          cs[size_t(k)]->setSubsetCollection();
          cm[size_t(k)].subset = true;
        }
        return k;
      }
      return c.pick(ks);
    };
    switch (op) {
    case NEWCOLL:
      if (liveColls().size() < 8) newColl(c.pick(types));
      break;
    case CREATE: {
      const int k = anyColl(0);
      const int o = create(k);
      checkHandle(pool.back().h, o, "a newly created object");
      if (once && c.chance(1, 1500)) {
        once = false;
        c.label("large collection");
        for (size_t i = 0, n = 50 + c.below(250); i < n; ++i) create(k);
      }
      break;
    }
    case CREATEARGS: {
      const int k = anyColl(0);
      const int o = createArgs(k);
      checkHandle(pool.back().h, o, "an object created with values");
      break;
    }
    case NEWFREE: {
      const int o = newFree(c.pick(types));
      checkHandle(pool.back().h, o, "a new object");
      break;
    }
    case PUSH: {
      const int p = livePool(true, 0);
      if (p < 0) break;
      const int o = pool[size_t(p)].obj;
      auto ks = liveColls(objs[size_t(o)].type, 0);
      const int k = ks.empty() ? newColl(objs[size_t(o)].type) : c.pick(ks);
      pushFree(k, o, pool[size_t(p)].h);
      checkHandle(pool[size_t(p)].h, o, "a pushed object");
      checkHandle(handleOf(o, c.flip()), o, "a pushed object");
      ++shapes;
      break;
    }
    case MODIFY: {
      auto os = liveObjs();
      if (os.empty()) break;
      const int o = c.pick(os);
      Handle h;
      // through a fresh or an existing handle
      if (c.flip()) {
        for (auto& p : pool)
          if (p.obj == o && p.h.mut()) h = p.h;
      }
      if (!h) h = handleOf(o, true);
      if (!h) break;
      if (once && c.chance(1, 1500)) {
        once = false;
        lengthen(o, h, false, 50 + c.below(250));
      }
      if (modify(o, h, false)) {
        checkHandle(h, o, "a modified object");
        for (auto& p : pool)
          if (p.obj == o) checkHandle(p.h, o, "another handle to a modified object");
        ++shapes;
      }
      break;
    }
    case CLEAR: {
      auto ks = liveColls();
      if (ks.empty()) break;
      const int k = c.pick(ks);
      clearColl(k);
      checkColl(k, true);
      break;
    }
    case MOVECTOR: {
      auto ks = liveColls();
      if (ks.empty()) break;
      const int k = c.pick(ks);
      auto n = T(cm[size_t(k)].type).moveConstruct(*cs[size_t(k)]);
      std::swap(n, cs[size_t(k)]);
      raw[size_t(k)] = cs[size_t(k)].get();
      if (c.flip())
        husks.emplace_back(std::move(n), cm[size_t(k)].type);
      else
        n.reset();
      checkColl(k, true);
      ++shapes;
      break;
    }
    case MOVEASSIGN: {
      auto ks = liveColls();
      if (ks.empty()) break;
      const int k = c.pick(ks);
      const int t = cm[size_t(k)].type;
      // target: a moved-from, a new, or another live collection
      std::vector<size_t> hs;
      for (size_t i = 0; i < husks.size(); ++i)
        if (husks[i].second == t) hs.push_back(i);
      auto others = liveColls(t);
      std::erase(others, k);
      const auto how = c.draw(3);
      if (how == 0 && !others.empty()) {
        const int j = c.pick(others);
        c.label(cm[size_t(j)].items.empty() ? "move-assign onto an empty collection" : "move-assign onto a collection with elements");
        T(t).moveAssign(*cs[size_t(j)], *cs[size_t(k)]);
        clearItems(j);
        cm[size_t(j)].items = cm[size_t(k)].items;
        cm[size_t(j)].subset = cm[size_t(k)].subset;
        cm[size_t(j)].id = cm[size_t(k)].id;
        if (!cm[size_t(j)].subset)
          for (auto o : cm[size_t(j)].items) objs[size_t(o)].coll = j;
        cm[size_t(k)].items.clear();
        cm[size_t(k)].alive = false;
        cs[size_t(k)].reset();
        raw[size_t(k)] = nullptr;
        checkColl(j, true);
      } else {
        CollPtr dst;
        if (how == 1 && !hs.empty()) {
          const size_t i = c.pick(hs);
          dst = std::move(husks[i].first);
          husks.erase(husks.begin() + long(i));
          c.label("move-assign onto a moved-from collection");
        } else
          dst = T(t).newColl();
        T(t).moveAssign(*dst, *cs[size_t(k)]);
        cs[size_t(k)] = std::move(dst);
        raw[size_t(k)] = cs[size_t(k)].get();
        checkColl(k, true);
      }
      ++shapes;
      break;
    }
    case DESTROY: {
      auto ks = liveColls();
      if (ks.empty()) break;
      destroyColl(c.pick(ks));
      break;
    }
    case REFUSED:
      refused();
      break;
    case HANDLES:
      for (size_t i = 0, n = 1 + c.below(3); i < n; ++i) handleOps();
      break;
    case CLONE: {
      const int p = livePool(false, -1);
      if (p < 0 || pool.size() > 60) break;
      const int rel = int(c.draw(3));
      const int o = pool[size_t(p)].obj;
      auto h = T(objs[size_t(o)].type).clone(pool[size_t(p)].h, rel);
      Obj n = objs[size_t(o)];
      n.coll = n.pos = -1;
      if (rel == 0) {
        for (auto& x : n.vecs) x.clear();
        for (auto& x : n.ones) x = NONE;
        for (auto& x : n.manys) x.clear();
      }
      objs.push_back(n);
      pool.push_back({std::move(h), int(objs.size()) - 1});
      checkHandle(pool.back().h, int(objs.size()) - 1, "a clone");
      REQUIRE(!T(n.type).eq(pool.back().h, pool[size_t(p)].h), "a clone is the same object as its original");
      break;
    }
    case NEWSUBSET: {
      if (liveColls(-1, 1).size() >= 4) break;
      const int k = newColl(c.pick(types));
      cs[size_t(k)]->setSubsetCollection(true);
      cm[size_t(k)].subset = true;
      checkColl(k, true);
      break;
    }
    case SUBPUSH: {
      const int p = livePool(false, 1);
      if (p < 0) break;
      const int o = pool[size_t(p)].obj;
      auto ks = liveColls(objs[size_t(o)].type, 1);
      int k;
      if (ks.empty()) {
        k = newColl(objs[size_t(o)].type);
        cs[size_t(k)]->setSubsetCollection();
        cm[size_t(k)].subset = true;
      } else
        k = c.pick(ks);
      T(objs[size_t(o)].type).push(*cs[size_t(k)], pool[size_t(p)].h);
      cm[size_t(k)].items.push_back(o);
      checkColl(k, true);
      ++shapes;
      break;
    }
    case SETID: {
      auto ks = liveColls();
      if (ks.empty()) break;
      const int k = c.pick(ks);
      const uint32_t id = uint32_t(c.bits(4));
      cs[size_t(k)]->setID(id);
      cm[size_t(k)].id = id;
      checkColl(k, true);
      break;
    }
    case TOGGLE: {
      std::vector<int> ks;
      for (auto k : liveColls())
        if (cm[size_t(k)].items.empty()) ks.push_back(k);
      if (ks.empty()) break;
      const int k = c.pick(ks);
      const bool s = c.flip();
      c.label(std::string("empty collection ") + (cm[size_t(k)].subset ? "subset" : "ordinary") + " -> " + (s ? "subset" : "ordinary"));
      cs[size_t(k)]->setSubsetCollection(s);
      cm[size_t(k)].subset = s;
      checkColl(k, true);
      ++shapes;
      break;
    }
    case RELHANDLE: {
      const int p = livePool(false, -1);
      if (p < 0 || pool.size() > 60) break;
      const int o = pool[size_t(p)].obj;
      const auto& m = objs[size_t(o)];
      const auto& t = T(m.type);
      std::vector<std::pair<Handle, int>> hs;
      for (size_t r = 0; r < m.ones.size(); ++r)
        if (m.ones[r] >= 0) hs.emplace_back(t.one(pool[size_t(p)].h, int(r)), m.ones[r]);
      for (size_t r = 0; r < m.manys.size(); ++r)
        for (size_t k = 0; k < m.manys[r].size(); ++k)
          if (m.manys[r][k] >= 0) hs.emplace_back(t.manyGet(pool[size_t(p)].h, int(r), k, int(c.draw(4))), m.manys[r][k]);
      if (hs.empty()) break;
      auto x = c.pick(hs);
      pool.push_back({x.first, x.second});
      c.label("handle taken from a relation");
      break;
    }
    case FROM: {
      const int t = c.pick(types);
      std::vector<Handle> hs;
      std::vector<int> os;
      const bool mut = c.flip();
      for (auto& p : pool) {
        if (p.h.type() != t || p.obj < 0 || !objs[size_t(p.obj)].alive) continue;
        const bool tr = objs[size_t(p.obj)].coll >= 0;
        if (mut ? (!tr && p.h.mut() && std::find(os.begin(), os.end(), p.obj) == os.end()) : tr) {
          if (c.flip()) {
            hs.push_back(p.h);
            os.push_back(p.obj);
          }
        }
      }
      CollM m;
      m.type = t;
      m.subset = !mut;
      m.items = os;
      auto k = T(t).from(hs, mut, int(c.draw(3)));
      cm.push_back(m);
      raw.push_back(k.get());
      cs.push_back(std::move(k));
      if (mut)
        for (size_t i = 0; i < os.size(); ++i) {
          objs[size_t(os[i])].coll = int(cm.size()) - 1;
          objs[size_t(os[i])].pos = int(i);
        }
      hs.clear();
      checkColl(int(cm.size()) - 1, true);
      break;
    }
    default: { // ELEMHANDLE
      auto os = tracked();
      if (os.empty() || pool.size() > 60) break;
      const int o = c.pick(os);
      pool.push_back({handleOf(o, c.flip()), o});
      break;
    }
    }
  }
  void run(const Weights& w, size_t maxOps, int deepEvery) {
    const size_t n = 4 + c.below(maxOps);
    for (size_t i = 0; i < n; ++i) {
      step(w);
      if (int(i) % deepEvery == deepEvery - 1) checkAll(true);
    }
    checkAll(true);
    // everything may go away in any order
    switch (c.draw(4)) {
    case 0:
      pool.clear();
      collectGarbage();
      checkAll(true);
      break;
    case 1:
      while (!liveColls().empty()) {
        destroyColl(c.pick(liveColls()));
        if (c.flip()) checkAll(false);
      }
      checkAll(true);
      break;
    case 2:
      husks.clear();
      checkAll(false);
      break;
    default:
      break;
    }
  }
};
} // namespace

//                 NEWCOLL CREATE CARGS FREE PUSH MODIFY CLEAR MOVEC MOVEA DESTR REFUSED HANDLES CLONE NSUB SUBP SETID TOGGLE RELH FROM ELEM
static const Weights wColl{{4, 10, 10, 6, 8, 40, 2, 3, 3, 1, 4, 1, 1, 1, 2, 2, 1, 1, 2, 2}};
static const Weights wLife{{3, 6, 4, 10, 9, 20, 4, 4, 5, 4, 2, 30, 10, 2, 5, 1, 1, 10, 5, 8}};
static const Weights wSub{{3, 8, 4, 5, 4, 8, 5, 4, 4, 3, 14, 4, 2, 6, 24, 4, 10, 2, 8, 6}};

PBT_PROP_NOLEAK(collections_are_faithful_sequences) {
  Driver d(c);
  d.run(wColl, 36, 12);
  if (d.shapes >= 3 && d.objs.size() >= 2) c.nontrivial();
}
PBT_PROP_NOLEAK(handles_and_collections_manage_lifetime) {
  Driver d(c);
  d.run(wLife, 40, 10);
  if (d.shapes >= 2 && d.objs.size() >= 3) c.nontrivial();
}
PBT_PROP_NOLEAK(subset_collections_only_refer) {
  Driver d(c);
  d.run(wSub, 36, 9);
  size_t subs = 0;
  for (auto& k : d.cm) subs += k.subset && k.items.size() >= 2;
  if (subs) c.nontrivial();
}
PBT_PROP_NOLEAK(links_follow_the_rules_of_objects) {
  Driver d(c, true);
  d.run(c.flip() ? wColl : wLife, 36, 12);
  size_t links = 0;
  for (auto& o : d.objs) links += T(o.type).isLink;
  if (d.shapes >= 2 && links >= 2) c.nontrivial();
}
