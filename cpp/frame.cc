// Frames as write-once stores of named collections (C07)
#include "store.h"
using namespace wm;

namespace {
void checkNames(const FrameWorld& w) {
  auto want = w.frameNames();
  auto got = w.frame->getAvailableCollections();
  std::sort(want.begin(), want.end());
  std::sort(got.begin(), got.end());
  REQUIRE(want == got, "the frame lists " << got.size() << " collections instead of " << want.size() << ", or others");
}
/// a collection that is not part of the world
CollPtr stray(Case& c, int& type) {
  type = int(c.below(size_t(nTypes())));
  auto k = T(type).newColl();
  for (size_t i = 0, n = c.below(4); i < n; ++i) (void)T(type).create(*k);
  return k;
}
} // namespace

PBT_PROP_NOLEAK(frame_is_a_write_once_store) {
  auto w = std::make_unique<FrameWorld>(c);
  w->populate(4, 4, 8);
  w->inFrame.resize(w->cm.size());
  std::vector<std::unique_ptr<FrameWorld>> older;
  size_t refused = 0, puts = 0, unread = 0;
  const size_t n = 6 + c.count(40);
  bool read = false, reused = false;
  for (size_t step = 0; step < n; ++step) {
    switch (c.weighted({6, 3, 2, 2, 2, 2, 2, 1, 1, 2, 3, 1})) {
    case 0: { // put
      std::vector<int> ks;
      for (auto k : w->liveColls())
        if (!w->inFrame[size_t(k)]) ks.push_back(k);
      if (ks.empty()) {
        const int k = w->newColl(int(c.below(size_t(nTypes()))));
        w->inFrame.resize(w->cm.size());
        for (size_t i = 0, m = c.below(4); i < m; ++i) w->create(k);
        ks.push_back(k);
      }
      const int k = c.pick(ks);
      auto name = w->freshName();
      if (read && c.flip()) {
        // the name of one that was not stored is free again
        std::vector<std::string> gone;
        for (size_t i = 0; i < w->cm.size(); ++i)
          if (!w->inFrame[i] && !w->cm[i].name.empty() && !w->hasName(w->cm[i].name)) gone.push_back(w->cm[i].name);
        if (!gone.empty()) {
          name = c.pick(gone);
          reused = true;
          c.label("name of a collection that was not stored used again");
        }
      }
      c.log("put ", k, " as ", name);
      if (c.flip()) {
        w->putColl(k, name);
      } else {
        w->maybeIdentify(k);
        const auto* p = T(w->cm[size_t(k)].type).putTyped(*w->frame, *w->cs[size_t(k)], name);
        w->cs[size_t(k)].reset();
        w->raw[size_t(k)] = const_cast<Coll*>(p);
        w->inFrame[size_t(k)] = true;
        w->cm[size_t(k)].name = name;
        w->cm[size_t(k)].id = p->getID();
        REQUIRE(w->frame->getCollectionIDTableForWrite().collectionID(name) == p->getID(), "the ID of the collection that was put is not in the ID table");
        REQUIRE(p->hasID(), "a collection without ID was returned from put");
      }
      REQUIRE(w->frame->get(name) == w->raw[size_t(k)], "another collection than the one that was put as " << name);
      REQUIRE(w->frame->getName(*w->raw[size_t(k)]) == name && w->frame->getName(w->cm[size_t(k)].id) == name, "the name of the collection that was put as " << name);
      ++puts;
      break;
    }
    case 1: { // put under a name in use
      auto names = w->frameNames();
      if (names.empty()) break;
      const auto name = c.pick(names);
      const auto before = w->frame->getCollectionIDTableForWrite();
      int t{};
      auto k = stray(c, t);
      c.log("try to put another collection as ", name);
      if (c.flip())
        REQUIRE_THROWS_AS(w->frame->put(std::move(k), name), std::invalid_argument, "putting a second collection as " << name);
      else
        REQUIRE_THROWS_AS((void)T(t).putTyped(*w->frame, *k, name), std::invalid_argument, "putting a second collection (by type) as " << name);
      const auto after = w->frame->getCollectionIDTableForWrite();
      REQUIRE(before.ids() == after.ids() && before.names() == after.names(), "the ID table changed although the collection was refused");
      ++refused;
      break;
    }
    case 2: { // unknown name
      auto name = c.chance(1, 4) ? std::string() : c.ident(4);
      if (w->hasName(name)) break;
      // (a name known from the stored table, but without data, is not available either)
      REQUIRE(w->frame->get(name) == nullptr, "there is a collection " << name);
      REQUIRE_THROWS_AS((void)T(int(c.below(size_t(nTypes())))).getTyped(*w->frame, name), std::runtime_error, "typed access to the unknown collection " << name);
      REQUIRE(w->frame->getCollectionForWrite(name) == nullptr, "an unknown collection can be obtained for writing");
      break;
    }
    case 3: { // typed access
      std::vector<int> ks;
      for (size_t k = 0; k < w->cm.size(); ++k)
        if (w->inFrame[k]) ks.push_back(int(k));
      if (ks.empty()) break;
      const int k = c.pick(ks);
      const int t = c.flip() ? w->cm[size_t(k)].type : int(c.below(size_t(nTypes())));
      const auto& name = w->cm[size_t(k)].name;
      c.log("get ", name, " as ", T(t).name);
      if (t == w->cm[size_t(k)].type) {
        const auto* p = T(t).getTyped(*w->frame, name);
        REQUIRE(p == w->frame->get(name), "typed and untyped access to " << name << " differ");
        if (!w->raw[size_t(k)]) w->raw[size_t(k)] = const_cast<Coll*>(p);
      } else {
        REQUIRE_THROWS_AS((void)T(t).getTyped(*w->frame, name), std::runtime_error, "typed access with the wrong type");
      }
      break;
    }
    case 4:
      c.log("list");
      checkNames(*w);
      break;
    case 5: { // look up names
      const uint32_t id = uint32_t(c.bits(4));
      bool known = false;
      const auto table = w->frame->getCollectionIDTableForWrite();
      for (auto& x : table.ids()) known = known || x == id;
      if (!known) REQUIRE(!w->frame->getName(id).has_value(), "an unknown ID has a name");
      int t{};
      auto k = stray(c, t);
      REQUIRE(!w->frame->getName(*k).has_value(), "a collection that is not in the frame has a name there");
      break;
    }
    case 6: { // move the frame
      c.log("move the frame");
      switch (c.draw(3)) {
      case 0:
        w->frame = std::make_shared<podio::Frame>(std::move(*w->frame));
        break;
      case 1: {
        auto f = std::make_shared<podio::Frame>();
        int t{};
        f->put(stray(c, t), "x");
        f->putParameter("x", 1);
        *f = std::move(*w->frame);
        w->frame = f;
        break;
      }
      default: {
        podio::Frame f = std::move(*w->frame);
        *w->frame = std::move(f);
      }
      }
      break;
    }
    case 7:
      w->addUserData(1);
      break;
    case 8: {
      const auto k = c.ident(3);
      w->strPar[k] = {c.text(4)};
      w->frame->putParameter(k, w->strPar[k]);
      break;
    }
    case 9: { // relate or modify through handles that are still there
      if (read) break;
      auto os = w->tracked();
      if (os.empty()) break;
      const int o = c.pick(os);
      if (w->cm[size_t(w->objs[size_t(o)].coll)].id != UNTRACKED_ID && c.flip()) break;
      auto h = w->handleOf(o, true);
      if (h) w->modify(o, h, true);
      break;
    }
    case 10: { // fetch one that has not been unpacked
      std::vector<int> ks;
      for (size_t k = 0; k < w->cm.size(); ++k)
        if (w->inFrame[k] && !w->raw[k]) ks.push_back(int(k));
      if (ks.empty()) break;
      const int k = c.pick(ks);
      c.log("read ", w->cm[size_t(k)].name);
      w->fetch(k);
      w->checkColl(k, true);
      ++unread;
      break;
    }
    default: { // store it and go on with what is read back
      if (older.size() >= 2 || reused) break; // (storing after reuse: see the probe below)
      c.log("store and read back");
      auto store = storeFrame(*w->frame, w->someNames(c.flip() ? 5 : 1000));
      auto r = readBack(*w, store);
      older.push_back(std::move(w));
      if (c.flip()) older.back().reset();
      w = std::move(r);
      w->inFrame.resize(w->cm.size());
      read = true;
    }
    }
    if (c.chance(1, 4)) checkNames(*w);
  }
  w->readAll();
  for (auto& o : older)
    if (o) o->checkAll();
  c.label(refused ? "puts refused" : "nothing refused");
  if (unread) c.label("puts and gets mixed with unpacking");
  if (puts >= 2 && refused) c.nontrivial();
}

namespace {
/// "from" relates to the second object of "to"; "to" is not stored, and another collection is put under its name
std::unique_ptr<FrameWorld> replaced(FrameWorld& w, int& t, int& r) {
  for (int i = 0; i < nTypes() && t < 0; ++i)
    for (size_t j = 0; j < T(i).ones.size() && t < 0; ++j)
      if (!T(i).ones[j].isInterface && !T(i).isLink) t = i, r = int(j);
  const int u = T(t).ones[size_t(r)].targets[0];
  const int from = w.newColl(t), to = w.newColl(u);
  const int a = w.create(from);
  w.create(to);
  const int b = w.create(to);
  T(t).setOne(w.pool[0].h, r, w.handleOf(b, false));
  w.objs[size_t(a)].ones[size_t(r)] = b;
  w.inFrame.resize(2);
  w.putColl(from, "from");
  w.putColl(to, "to");
  auto rd = readBack(w, storeFrame(*w.frame, {"from"}));
  auto other = T(u).newColl();
  (void)T(u).create(*other);
  (void)T(u).create(*other);
  rd->frame->put(std::move(other), "to");
  return rd;
}
} // namespace
/// The name of a collection that was not stored is free, but relations of collections that are unpacked later must not
/// end up in the collection put under it
PBT_PROP_NOLEAK(relations_do_not_refer_to_replaced_collections) {
  FrameWorld w(c);
  int t = -1, r = -1;
  auto rd = replaced(w, t, r);
  const auto* p = rd->frame->get("from");
  auto got = T(t).one(T(t).get(*const_cast<Coll*>(p), 0, 0), r);
  REQUIRE(!T(got.type()).available(got), "a relation to a collection that was not stored refers to an object that was put into the frame later");
  c.nontrivial();
}
/// known finding: the same once everything is stored again
PBT_PROP_NOLEAK(probe_replaced_collection_stored_again) {
  FrameWorld w(c);
  int t = -1, r = -1;
  auto rd = replaced(w, t, r);
  REQUIRE(rd->frame->get("from"), "not there");
  podio::Frame again(std::make_unique<MemFrameData>(storeFrame(*rd->frame, {"from", "to"})));
  const auto* p = again.get("from");
  auto got = T(t).one(T(t).get(*const_cast<Coll*>(p), 0, 0), r);
  REQUIRE(!T(got.type()).available(got), "a relation to a collection that was not stored refers to an object of the collection stored later under its name");
}
