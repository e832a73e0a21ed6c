// Writing and reading back through a memory backend (C04)
#include "store.h"
using namespace wm;

namespace {
size_t relations(const FrameWorld& w) {
  size_t n = 0;
  for (auto& o : w.objs) {
    if (!o.alive || o.coll < 0) continue;
    for (auto r : o.ones) n += r >= 0;
    for (auto& rs : o.manys)
      for (auto r : rs) n += r >= 0;
  }
  return n;
}
} // namespace

PBT_PROP_NOLEAK(preparing_is_repeatable_and_harmless) {
  FrameWorld w(c);
  w.populate(5, 5, 25);
  w.inFrame.resize(w.cm.size());
  // some objects refer to objects that are in no collection
  std::map<int, std::set<int>> blocked; // collection -> free objects it refers to
  size_t nb = c.chance(2, 3) ? 1 + c.below(3) : 0;
  for (size_t i = 0; i < nb; ++i) {
    std::vector<int> cand;
    for (auto o : w.tracked())
      if (!T(w.objs[size_t(o)].type).manys.empty()) cand.push_back(o);
    if (cand.empty()) break;
    const int o = c.pick(cand);
    const auto& t = T(w.objs[size_t(o)].type);
    const int r = int(c.below(t.manys.size()));
    const int f = w.newFree(c.pick(t.manys[size_t(r)].targets));
    auto fh = w.pool.back().h;
    auto h = w.handleOf(o, true);
    t.manyAdd(h, r, c.flip() ? fh : T(w.objs[size_t(f)].type).toImmutable(fh));
    w.objs[size_t(o)].manys[size_t(r)].push_back(f);
    blocked[w.objs[size_t(o)].coll].insert(f);
    for (size_t j = 0, m = c.below(3); j < m; ++j) w.modifyForIo(o, h);
  }
  for (auto k : w.liveColls()) w.putColl(k, w.freshName());
  w.addUserData(2);
  auto isBlocked = [&](int k) {
    const auto it = blocked.find(k);
    return it != blocked.end() && !it->second.empty();
  };
  std::map<int, std::string> bytes;
  std::map<std::string, std::vector<u64>> udBytes;
  size_t again = 0, refused = 0;
  auto prepare = [&](int k) {
    auto& m = w.cm[size_t(k)];
    c.log("prepare ", m.name, isBlocked(k) ? " (refused)" : "");
    if (isBlocked(k)) {
      REQUIRE_THROWS_AS((void)w.frame->getCollectionForWrite(m.name), std::runtime_error, "preparing a collection with a relation to an object that is in no collection");
      ++refused;
      return;
    }
    auto* p = const_cast<Coll*>(w.frame->getCollectionForWrite(m.name));
    REQUIRE(p == w.raw[size_t(k)], "another collection than the one in the frame is written");
    if (c.flip()) p->prepareForWrite();
    auto b = T(m.type).bufferBytes(*p);
    if (c.flip()) REQUIRE(T(m.type).bufferBytes(*p) == b, "getting the buffers twice gives different ones");
    const auto it = bytes.find(k);
    if (it == bytes.end()) {
      bytes[k] = b;
    } else {
      REQUIRE(it->second == b, "preparing " << m.name << " again gives other buffers: " << b << " after " << it->second);
      ++again;
    }
  };
  auto some = [&](size_t n) {
    for (size_t i = 0; i < n; ++i) {
      auto ks = w.liveColls();
      switch (c.weighted({6, 1, 1})) {
      case 0:
        if (!ks.empty()) prepare(c.pick(ks));
        break;
      case 1:
        if (!ks.empty()) w.checkColl(c.pick(ks), true);
        break;
      default:
        w.checkFrame();
      }
    }
  };
  some(2 + c.count(12));
  w.checkAll();
  w.checkFrame();
  // what was missing gets stored, one after the other
  std::vector<int> missing;
  for (size_t o = 0; o < w.objs.size(); ++o)
    if (w.objs[o].alive && w.objs[o].coll < 0)
      for (auto& [k, fs] : blocked)
        if (fs.count(int(o)) && std::find(missing.begin(), missing.end(), int(o)) == missing.end()) missing.push_back(int(o));
  for (auto o : missing) {
    const int k = w.newColl(w.objs[size_t(o)].type);
    w.inFrame.resize(w.cm.size());
    auto h = w.handleOf(o, true);
    w.pushFree(k, o, h);
    w.putColl(k, w.freshName());
    for (auto& [kk, fs] : blocked) fs.erase(o);
    some(c.count(4));
  }
  const bool written = c.flip();
  if (written) {
    auto store = storeFrame(*w.frame, w.frameNames());
    auto r = readBack(w, store);
    r->readAll();
    // what was read is written again without being touched: the buffers are the same
    for (size_t k = 0; k < r->cm.size(); ++k)
      if (r->inFrame[k]) {
        prepare(int(k));
        auto* p = const_cast<Coll*>(r->frame->getCollectionForWrite(r->cm[k].name));
        REQUIRE(T(r->cm[k].type).bufferBytes(*p) == bytes[int(k)], "writing " << r->cm[k].name << " again after reading it gives other buffers");
      }
  }
  some(2 + c.count(8));
  w.checkAll();
  w.checkFrame();
  auto r = readBack(w, storeFrame(*w.frame, w.frameNames()));
  r->readAll();
  if (refused) c.label("refused attempts");
  if (again >= 2 && relations(*r)) c.nontrivial();
}
/// a collection that was prepared, cleared and filled again is written like a fresh one
PBT_PROP_NOLEAK(collections_can_be_prepared_after_clearing) {
  FrameWorld w(c);
  const int t = int(c.below(size_t(nTypes())));
  const int k = w.newColl(t);
  const bool subset = c.chance(1, 3);
  int src = -1;
  if (subset) {
    src = w.newColl(t);
    for (size_t i = 0; i < 4; ++i) w.createArgs(src);
    w.raw[size_t(k)]->setSubsetCollection();
    w.cm[size_t(k)].subset = true;
  }
  const size_t rounds = 1 + c.below(3);
  for (size_t i = 0; i <= rounds; ++i) {
    for (size_t j = 0, n = c.count(4); j < n; ++j) {
      if (subset) {
        const int o = c.pick(w.cm[size_t(src)].items);
        T(t).push(*w.raw[size_t(k)], w.handleOf(o, c.flip()));
        w.cm[size_t(k)].items.push_back(o);
        continue;
      }
      const int o = c.flip() ? w.createArgs(k) : w.create(k);
      auto h = w.handleOf(o, true);
      for (size_t m = 0, mm = c.below(4); m < mm; ++m) w.modify(o, h, true);
    }
    w.checkAll();
    if (i == rounds) break;
    if (c.chance(3, 4)) {
      w.raw[size_t(k)]->prepareForWrite();
      const auto b = T(t).bufferBytes(*w.raw[size_t(k)]);
      if (c.flip()) {
        // it already is what it is asked to become
        w.raw[size_t(k)]->setSubsetCollection(subset);
        REQUIRE(T(t).bufferBytes(*w.raw[size_t(k)]) == b, "setting the kind that a prepared collection already has changes its buffers");
      }
      c.nontrivial();
    }
    w.checkAll();
    w.clearColl(k);
    w.checkAll();
  }
  w.inFrame.resize(w.cm.size());
  w.putAll(1000);
  auto r = readBack(w, storeFrame(*w.frame, w.frameNames()));
  r->readAll();
}
PBT_PROP_NOLEAK(links_survive_storage) {
  FrameWorld w(c);
  w.populate(6, 5, 40, true);
  w.putAll(1000);
  auto store = storeFrame(*w.frame, w.someNames(c.flip() ? 6 : 1000));
  auto r = readBack(w, store);
  r->readAll();
  size_t linked = 0;
  for (auto& o : r->objs)
    if (o.alive && T(o.type).isLink) linked += o.ones[0] >= 0 && o.ones[1] >= 0;
  if (linked) c.nontrivial();
}
/// collections, and subsets that refer to them
PBT_PROP_NOLEAK(subsets_survive_storage) {
  FrameWorld w(c);
  w.populate(8, 5, 10, c.chance(1, 4), true);
  w.putAll(20);
  auto store = storeFrame(*w.frame, w.someNames(c.flip() ? 6 : 1000));
  w.checkAll();
  auto r = readBack(w, store);
  r->readAll();
  size_t n = 0;
  for (size_t k = 0; k < r->cm.size(); ++k)
    if (r->inFrame[k] && r->cm[k].subset) n += r->cm[k].items.size();
  if (n > 1) c.nontrivial();
  // once more, and the subsets alone (so that what they refer to is missing)
  if (c.flip()) {
    auto store2 = storeFrame(*r->frame, r->someNames(c.flip() ? 2 : 1000));
    auto r2 = readBack(*r, store2);
    r2->readAll();
  }
}
PBT_PROP_NOLEAK(frames_survive_storage) {
  auto w = std::make_unique<FrameWorld>(c);
  w->populate(6, 6, 30);
  w->putAll(12);
  w->addUserData(2);
  w->addParameters(3);
  w->checkFrame();
  // the original has to be intact whatever happens to it, and look the same before and after writing
  if (c.chance(1, 4)) w->checkAll();
  auto names = w->someNames(c.flip() ? 5 : 1000);
  auto store = storeFrame(*w->frame, names);
  w->checkAll();
  w->checkFrame();
  const bool keep = c.flip(); // the original may be gone while reading
  auto r = readBack(*w, store);
  if (!keep) w.reset();
  r->readAll();
  const size_t rel = relations(*r);
  c.label(rel ? "relations read" : "no relations");
  if (rel && r->frameNames().size() >= 2) c.nontrivial();
  if (w) w->checkAll();

  // further generations: add to what was read and write it again
  const size_t gens = c.below(3);
  for (size_t g = 0; g < gens; ++g) {
    // start from a frame nothing has been read from yet, or from the one that was looked at
    if (c.flip()) {
      auto fresh = readBack(*r, store);
      r = std::move(fresh);
      c.label("rewritten without reading it");
    }
    const size_t nc = r->cm.size();
    std::set<int> known;
    // new collections whose objects refer to the ones that were read
    std::vector<int> ks;
    const size_t n = c.below(3);
    for (size_t i = 0; i < n; ++i) {
      const int k = r->newColl(int(c.below(size_t(nTypes()))));
      r->inFrame.push_back(false);
      if (c.chance(1, 3)) {
        r->raw[size_t(k)]->setSubsetCollection();
        r->cm[size_t(k)].subset = true;
      } else
        for (size_t j = 0, m = c.count(4); j < m; ++j) r->create(k);
      ks.push_back(k);
    }
    if (!ks.empty()) {
      for (size_t k = 0; k < nc; ++k)
        if (r->inFrame[k]) r->fetch(int(k));
      std::vector<int> fresh;
      for (auto k : ks)
        if (!r->cm[size_t(k)].subset) fresh.insert(fresh.end(), r->cm[size_t(k)].items.begin(), r->cm[size_t(k)].items.end());
      for (size_t i = 0; i < 8 && !fresh.empty(); ++i) {
        const int o = c.pick(fresh);
        auto h = r->handleOf(o, true);
        r->modifyForIo(o, h);
      }
      r->fillSubsets(ks);
      for (auto k : ks) r->putColl(k, r->freshName());
    }
    auto names2 = r->someNames(c.flip() ? 5 : 1000);
    auto store2 = storeFrame(*r->frame, names2);
    auto r2 = readBack(*r, store2);
    if (c.flip()) r->checkFrame();
    r = std::move(r2);
    store = std::move(store2);
    r->readAll();
    c.label("another generation");
  }
}
