// Clones are complete and independent (C03)
#include "store.h"
using namespace wm;

PBT_PROP_NOLEAK(clones_are_complete_and_independent) {
  auto w = std::make_unique<FrameWorld>(c);
  w->populate(4, 5, 25);
  bool read = false;
  std::unique_ptr<FrameWorld> old;
  if (c.chance(1, 3)) {
    // clone what was written and read back
    w->pool.clear();
    w->putAll(12);
    auto store = storeFrame(*w->frame, w->someNames(c.flip() ? 5 : 1000));
    auto r = readBack(*w, store);
    old = std::move(w);
    w = std::move(r);
    if (c.flip()) old.reset();
    if (c.flip())
      w->readAll();
    else
      for (size_t k = 0; k < w->cm.size(); ++k)
        if (w->inFrame[k]) w->fetch(int(k));
    read = true;
    c.label("clones of objects that were read");
  } else if (c.flip()) {
    w->putAll(3);
    c.label("clones of objects in a frame");
  }
  const size_t nObjs = w->objs.size();
  std::set<int> clones;
  std::vector<int> own; // collections clones go to
  size_t rich = 0;
  const size_t n = 3 + c.count(25);
  for (size_t i = 0; i < n; ++i) {
    switch (c.weighted({5, 4, 2, 1})) {
    case 0: { // clone something
      auto os = w->liveObjs();
      if (os.empty()) break;
      int o = c.pick(os);
      // (what was read is const: there are only immutable handles to it)
      auto h = w->handleOf(o, c.flip() && !(read && o < int(nObjs)));
      if (!h) h = w->handleOf(o, false);
      if (!h) break;
      const int rel = int(c.below(3));
      auto k = T(h.type()).clone(h, rel);
      Obj m = w->objs[size_t(o)];
      m.coll = m.pos = -1;
      if (rel == 0) {
        const auto d = defaultObj(m.type);
        m.vecs = d.vecs;
        m.ones = d.ones;
        m.manys = d.manys;
      } else {
        for (auto r : m.ones) rich += r >= 0;
        for (auto& r : m.manys) rich += !r.empty();
        for (auto& r : m.vecs) rich += !r.empty();
      }
      REQUIRE(!T(h.type()).eq(h, k) && T(h.type()).ne(k, h), "a clone of " << T(h.type()).name << " is the original object");
      w->objs.push_back(m);
      const int id = int(w->objs.size()) - 1;
      w->pool.push_back({k, id});
      clones.insert(id);
      c.log("clone ", o, " (", T(m.type).name, ") as ", id, " relations ", rel);
      w->checkHandle(k, id, "clone");
      break;
    }
    case 1: { // modify an original or a clone
      std::vector<int> os;
      for (auto o : w->liveObjs())
        if (!read || o >= int(nObjs)) os.push_back(o);
      if (os.empty()) break;
      const int o = c.pick(os);
      auto h = w->handleOf(o, true);
      if (!h) break;
      c.log("modify ", o);
      w->modify(o, h, true);
      break;
    }
    case 2: { // put a clone into a collection of its own
      std::vector<int> os;
      for (auto o : clones)
        if (w->objs[size_t(o)].alive && w->objs[size_t(o)].coll < 0) os.push_back(o);
      if (os.empty()) break;
      const int o = c.pick(os);
      auto h = w->handleOf(o, true);
      if (!h) break;
      int k = -1;
      for (auto x : own)
        if (w->cm[size_t(x)].type == w->objs[size_t(o)].type) k = x;
      if (k < 0) {
        k = w->newColl(w->objs[size_t(o)].type);
        w->inFrame.resize(w->cm.size());
        own.push_back(k);
      }
      c.log("put ", o, " into ", k);
      w->pushFree(k, o, h);
      break;
    }
    default: { // the original's collection goes away
      if (read) break;
      std::vector<int> ks;
      for (auto k : w->liveColls())
        if (w->cs[size_t(k)] && std::find(own.begin(), own.end(), k) == own.end()) ks.push_back(k);
      if (ks.empty()) break;
      c.log("destroy collection");
      w->destroyColl(c.pick(ks));
    }
    }
    if (c.chance(1, 3)) w->checkAll();
  }
  w->checkAll();
  if (old) old->checkAll();
  if (rich >= 2) c.nontrivial();
  // written like any other object
  bool dead = false;
  for (auto& o : w->objs) {
    if (!o.alive || o.coll < 0) continue;
    for (auto r : o.ones) dead = dead || r == DEAD;
    for (auto& rs : o.manys)
      for (auto r : rs) dead = dead || r < 0 || w->objs[size_t(r)].coll < 0;
  }
  for (auto& k : w->cm)
    for (auto i : k.items) dead = dead || (k.alive && i == DEAD);
  if (dead || own.empty()) return;
  w->putAll(1000);
  auto store = storeFrame(*w->frame, w->someNames(c.flip() ? 5 : 1000));
  auto r = readBack(*w, store);
  r->readAll();
  c.label("clones written and read");
}
