// An in-memory storage backend, written the way podio's own ones use the buffers, and worlds that live in frames
#pragma once
#include "world.h"
#include "podio/CollectionBufferFactory.h"
#include "podio/CollectionBuffers.h"
#include "podio/Frame.h"
#include "podio/UserDataCollection.h"
#include "podio/utilities/DatamodelRegistryIOHelpers.h"

namespace wm {
// ------------------------------------------------------------------ user data collections, type erased
struct UdOps {
  const char* name;
  int width;
  bool isFloat;
  CollPtr (*make)(const std::vector<u64>&);
  void (*append)(Coll&, u64);
  std::vector<u64> (*read)(const Coll&);
  void (*copyData)(Coll&, podio::CollectionReadBuffers&);
  void (*dup)(podio::CollectionReadBuffers&, podio::CollectionReadBuffers&);
  bool (*typed)(const podio::Frame&, const std::string&); // frame.get<UserDataCollection<T>>(name)
};
template <typename V>
V udFrom(u64 b) {
  V v;
  std::memcpy(&v, &b, sizeof v);
  return v;
}
template <typename V>
u64 udTo(V v) {
  u64 b = 0;
  std::memcpy(&b, &v, sizeof v);
  return b;
}
template <typename V>
UdOps udOps() {
  using C = podio::UserDataCollection<V>;
  UdOps o;
  o.name = C::typeName.data();
  o.width = int(sizeof(V));
  o.isFloat = std::is_floating_point_v<V>;
  o.make = [](const std::vector<u64>& b) -> CollPtr {
    auto c = std::make_unique<C>();
    for (auto x : b) c->push_back(udFrom<V>(x));
    return c;
  };
  o.append = [](Coll& c, u64 x) { static_cast<C&>(c).push_back(udFrom<V>(x)); };
  o.read = [](const Coll& c) {
    std::vector<u64> r;
    for (const auto& v : static_cast<const C&>(c)) r.push_back(udTo<V>(v));
    return r;
  };
  o.copyData = [](Coll& f, podio::CollectionReadBuffers& to) {
    auto b = f.getBuffers();
    auto* s = b.dataAsVector<V>();
    if (!s || !b.data || *static_cast<std::vector<V>**>(b.data) != s) throw std::runtime_error("user data buffers disagree");
    *to.dataAsVector<V>() = *s;
  };
  o.dup = [](podio::CollectionReadBuffers& f, podio::CollectionReadBuffers& to) { *to.dataAsVector<V>() = *f.dataAsVector<V>(); };
  o.typed = [](const podio::Frame& f, const std::string& n) {
    const auto& c = f.get<C>(n);
    return static_cast<const Coll*>(&c) == f.get(n);
  };
  return o;
}
inline const std::vector<UdOps>& uds() {
  static const std::vector<UdOps> v = {udOps<float>(), udOps<double>(), udOps<int8_t>(), udOps<int16_t>(), udOps<int32_t>(),
                                       udOps<int64_t>(), udOps<uint8_t>(), udOps<uint16_t>(), udOps<uint32_t>(), udOps<uint64_t>()};
  return v;
}
inline int typeByCollName(std::string_view n) {
  for (int i = 0; i < nTypes(); ++i)
    if (T(i).typeNames(1) == n) return i;
  return -1;
}
inline int udByCollName(std::string_view n) {
  for (size_t i = 0; i < uds().size(); ++i)
    if (n == uds()[i].name) return int(i);
  return -1;
}

// ------------------------------------------------------------------ the store
struct StoredColl {
  std::string name, type;
  uint32_t version{};
  bool subset{};
  podio::CollectionReadBuffers buf;
};
struct Store {
  std::vector<std::shared_ptr<StoredColl>> colls;
  std::vector<uint32_t> ids;
  std::vector<std::string> names;
  std::shared_ptr<podio::GenericParameters> params;
  std::vector<std::pair<std::string, std::string>> definitions; // collected the way writers do
};
inline void copyOut(Coll& c, podio::CollectionReadBuffers& to) {
  const int t = typeByCollName(c.getTypeName());
  if (t >= 0) {
    T(t).copyData(c, to);
    return;
  }
  const int u = udByCollName(c.getTypeName());
  if (u < 0) throw std::runtime_error("collection of an unknown type " + std::string(c.getTypeName()));
  uds()[size_t(u)].copyData(c, to);
}
inline void dupBuffers(const std::string& type, podio::CollectionReadBuffers& from, podio::CollectionReadBuffers& to) {
  const int t = typeByCollName(type);
  if (t >= 0)
    T(t).dup(from, to);
  else
    uds()[size_t(udByCollName(type))].dup(from, to);
}
inline std::shared_ptr<StoredColl> storeColl(const podio::Frame& f, const std::string& name) {
  const auto* cc = f.getCollectionForWrite(name);
  REQUIRE(cc, "collection " << name << " cannot be obtained for writing");
  auto* c = const_cast<Coll*>(cc);
  auto s = std::make_shared<StoredColl>();
  s->name = name;
  s->type = std::string(c->getTypeName());
  s->version = c->getSchemaVersion();
  s->subset = c->isSubsetCollection();
  auto b = podio::CollectionBufferFactory::instance().createBuffers(s->type, s->version, s->subset);
  REQUIRE(b.has_value(), "no buffers can be created for " << s->type << " version " << s->version);
  REQUIRE(b->type == s->type && b->schemaVersion == s->version, "buffers of " << s->type << " claim to be " << b->type << " version " << b->schemaVersion);
  s->buf = std::move(*b);
  copyOut(*c, s->buf);
  return s;
}
inline Store storeFrame(const podio::Frame& f, const std::vector<std::string>& names) {
  Store s;
  podio::DatamodelDefinitionCollector coll;
  for (auto& n : names) {
    s.colls.push_back(storeColl(f, n));
    coll.registerDatamodelDefinition(f.get(n), n);
  }
  auto idt = f.getCollectionIDTableForWrite();
  s.ids = idt.ids();
  s.names = idt.names();
  s.params = std::make_shared<podio::GenericParameters>(f.getParameters());
  for (const auto& [n, d] : coll.getDatamodelDefinitionsToWrite()) {
    s.definitions.emplace_back(n, d);
  }
  return s;
}
/// podio's interface for data a frame is built from; buffers can be taken once
struct MemFrameData {
  Store store;
  std::vector<std::string> left;
  bool scramble{false};

  MemFrameData() = default;
  explicit MemFrameData(const Store& s) : store(s) {
    for (auto& c : s.colls) left.push_back(c->name);
  }
  podio::CollectionIDTable getIDTable() const { return {store.ids, store.names}; }
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string& name) {
    const auto it = std::find(left.begin(), left.end(), name);
    if (it == left.end()) return std::nullopt;
    left.erase(it);
    for (auto& c : store.colls) {
      if (c->name != name) continue;
      auto b = podio::CollectionBufferFactory::instance().createBuffers(c->type, c->version, c->subset);
      if (!b) return std::nullopt;
      dupBuffers(c->type, c->buf, *b);
      return b;
    }
    return std::nullopt;
  }
  std::vector<std::string> getAvailableCollections() const { return left; }
  std::unique_ptr<podio::GenericParameters> getParameters() { return std::make_unique<podio::GenericParameters>(*store.params); }
};
static_assert(podio::FrameDataType<MemFrameData>);

// ------------------------------------------------------------------ a frame and what it should contain
struct UdColl {
  int ud;
  std::string name;
  std::vector<u64> vals;
  CollPtr own;
};
struct FrameWorld : World {
  std::shared_ptr<podio::Frame> frame;
  std::vector<UdColl> ud;
  std::map<std::string, std::vector<std::string>> strPar; // parameters, kept simple here (C08 has the full interface)
  std::map<std::string, std::vector<double>> dblPar;
  std::map<std::string, std::vector<int>> intPar;
  std::map<std::string, std::vector<float>> fltPar;
  bool plainNames{false}; // only names that are identifiers
  std::set<std::string> usedNames;
  std::vector<bool> inFrame; // per collection
  std::vector<bool> isNew;   // created in this generation

  explicit FrameWorld(Case& cc) : World(cc), frame(std::make_shared<podio::Frame>()) {}

  std::string freshName() {
    for (;;) {
      std::string n;
      switch (plainNames ? c.draw(3) : c.draw(5)) {
      case 0:
        n = "c" + std::to_string(usedNames.size());
        break;
      case 1:
        n = c.ident(6);
        break;
      case 2:
        n = c.ident(3) + "_" + std::to_string(usedNames.size());
        break;
      case 3:
        n = c.chance(1, 4) ? c.text(5) : c.ident(2);
        break;
      default:
        n = "Some" + c.ident(2) + "Collection" + std::to_string(c.draw(5));
      }
      if (n.empty()) n = "x";
      while (usedNames.count(n)) n += "x";
      usedNames.insert(n);
      return n;
    }
  }
  /// a random event: collections, objects, relations; nothing is in the frame yet
  void populate(size_t maxColls, size_t maxObjs, size_t mods, bool links = false, bool subsets = false) {
    size_t nc = 1 + (c.chance(7, 8) ? 1 + c.below(maxColls - 1) : 0);
    if (links) nc = std::max<size_t>(nc, 3);
    std::vector<int> ks;
    for (size_t i = 0; i < nc; ++i) {
      int t;
      if (i == 0 && links) {
        std::vector<int> ls;
        for (int l = 0; l < nTypes(); ++l)
          if (T(l).isLink) ls.push_back(l);
        t = c.pick(ls);
      } else if (i < 3 && links) {
        t = c.pick(T(cm[size_t(ks[0])].type).ones[i - 1].targets);
      } else
      // prefer types that are related to the ones that are there already
      if (i > 0 && c.chance(2, 3)) {
        const auto& u = T(cm[size_t(c.pick(ks))].type);
        std::vector<int> ts;
        for (auto& r : u.ones) ts.insert(ts.end(), r.targets.begin(), r.targets.end());
        for (auto& r : u.manys) ts.insert(ts.end(), r.targets.begin(), r.targets.end());
        t = ts.empty() ? int(c.below(size_t(nTypes()))) : c.pick(ts);
      } else {
        t = int(c.below(size_t(nTypes())));
        // types with relations first
        if (T(t).ones.empty() && T(t).manys.empty() && c.flip()) t = int(c.below(size_t(nTypes())));
      }
      const bool subset = !(links && i < 3) && (subsets && i > 0 ? c.flip() : c.chance(1, 5));
      if (subset && subsets && i > 0) t = cm[size_t(c.pick(ks))].type;
      const int k = newColl(t);
      // (subset collections are filled last)
      if (subset) {
        raw[size_t(k)]->setSubsetCollection();
        cm[size_t(k)].subset = true;
      }
      ks.push_back(k);
    }
    for (auto k : ks) {
      if (cm[size_t(k)].subset) continue;
      const size_t n = c.chance(3, 4) ? 1 + c.some(maxObjs - 1, 300, 200) : c.count(maxObjs);
      if (n > 60) c.label("large collection");
      for (size_t i = 0; i < n; ++i) {
        switch (c.draw(3)) {
        case 0:
          create(k);
          break;
        case 1:
          createArgs(k);
          break;
        default: {
          const int o = newFree(cm[size_t(k)].type);
          if (c.chance(1, 8)) break; // stays free
          // relations may be set before it is added
          const size_t m = c.below(3);
          auto h = pool.back().h;
          for (size_t j = 0; j < m; ++j) modify(o, h, true);
          pushFree(k, o, h);
        }
        }
      }
    }
    auto os = tracked();
    for (size_t i = 0; i < mods && !os.empty(); ++i) {
      int o = c.pick(os);
      if (T(objs[size_t(o)].type).ones.empty() && T(objs[size_t(o)].type).manys.empty()) o = c.pick(os);
      auto h = handleOf(o, true);
      modifyForIo(o, h);
      if (c.chance(1, 600)) lengthen(o, h, true, 50 + c.below(300));
    }
    fillSubsets(ks);
  }
  void fillSubsets(const std::vector<int>& ks) {
    for (auto k : ks) {
      if (!cm[size_t(k)].subset) continue;
      auto cand = tracked(cm[size_t(k)].type);
      const size_t n = cand.empty() ? 0 : c.some(6, 200);
      for (size_t i = 0; i < n; ++i) {
        // (also the same one repeatedly)
        const int o = i > 0 && c.chance(1, 5) ? cm[size_t(k)].items.back() : c.pick(cand);
        T(cm[size_t(k)].type).push(*raw[size_t(k)], handleOf(o, c.flip()));
        cm[size_t(k)].items.push_back(o);
      }
    }
  }
  /// to-one relations may point anywhere, to-many ones only to objects in collections
  bool modifyForIo(int o, Handle& h) {
    const auto& t = T(objs[size_t(o)].type);
    if (!t.ones.empty() && c.flip()) return setOne(o, h, int(c.below(t.ones.size())), !c.chance(1, 10));
    return modify(o, h, true);
  }
  /// a collection may have got any ID before it gets into a frame
  void maybeIdentify(int k) {
    if (!c.chance(1, 6)) return;
    raw[size_t(k)]->setID(std::uint32_t(c.bits(4)));
    c.label("collection with an ID of its own");
  }
  void putColl(int k, const std::string& name) {
    maybeIdentify(k);
    frame->put(std::move(cs[size_t(k)]), name);
    cm[size_t(k)].name = name;
    inFrame.resize(cm.size());
    inFrame[size_t(k)] = true;
    const auto id = frame->getCollectionIDTableForWrite().collectionID(name);
    REQUIRE(id.has_value(), "collection " << name << " has no ID after it was put");
    cm[size_t(k)].id = *id;
  }
  void putAll(unsigned leaveOut = 8) {
    auto ks = liveColls();
    inFrame.resize(cm.size());
    std::vector<int> todo;
    for (auto k : ks)
      if (!inFrame[size_t(k)]) todo.push_back(k);
    while (!todo.empty()) {
      const size_t i = c.below(todo.size());
      const int k = todo[i];
      todo.erase(todo.begin() + long(i));
      if (c.chance(1, leaveOut)) {
        c.label("collection that is never put into the frame");
        continue;
      }
      putColl(k, freshName());
    }
  }
  void addUserData(size_t max) {
    const size_t n = c.below(max + 1);
    for (size_t i = 0; i < n; ++i) {
      UdColl u;
      u.ud = int(c.below(uds().size()));
      const size_t m = c.some(20);
      for (size_t j = 0; j < m; ++j) u.vals.push_back(uds()[size_t(u.ud)].isFloat ? c.floatBits(uds()[size_t(u.ud)].width, false) : c.bits(uds()[size_t(u.ud)].width));
      u.name = freshName();
      frame->put(uds()[size_t(u.ud)].make(u.vals), u.name);
      ud.push_back(std::move(u));
    }
  }
  void addParameters(size_t max) {
    const size_t n = c.below(max + 1);
    for (size_t i = 0; i < n; ++i) {
      const std::string k = c.ident(4);
      const size_t m = c.some(3);
      auto put = [&]<typename V>(std::map<std::string, std::vector<V>>& to, auto make) {
        std::vector<V> v;
        for (size_t j = 0; j < m; ++j) v.push_back(make());
        frame->putParameter(k, v);
        to[k] = v;
      };
      switch (c.weighted({3, 3, 1, 1})) {
      case 0:
        put(strPar, [&] { return c.text(6); });
        break;
      case 1:
        put(dblPar, [&] { return c.finiteDouble(); });
        break;
      case 2:
        put(intPar, [&] { return int(int32_t(c.bits(4))); });
        break;
      default:
        put(fltPar, [&] { return udFrom<float>(c.floatBits(4, false)); });
      }
    }
  }
  std::vector<std::string> frameNames() const {
    std::vector<std::string> r;
    for (size_t k = 0; k < cm.size(); ++k)
      if (k < inFrame.size() && inFrame[k]) r.push_back(cm[k].name);
    for (auto& u : ud) r.push_back(u.name);
    return r;
  }
  /// a random part of the frame's collections, in random order
  std::vector<std::string> someNames(unsigned leaveOut) {
    auto n = frameNames();
    std::vector<std::string> r;
    while (!n.empty()) {
      const size_t i = c.below(n.size());
      if (!c.chance(1, leaveOut)) r.push_back(n[i]);
      n.erase(n.begin() + long(i));
    }
    return r;
  }
  bool hasName(const std::string& n) const {
    auto v = frameNames();
    return std::find(v.begin(), v.end(), n) != v.end();
  }

  /// fetch a collection of this (read) frame
  void fetch(int k) {
    if (raw[size_t(k)]) return;
    const auto* p = frame->get(cm[size_t(k)].name);
    REQUIRE(p, "collection " << cm[size_t(k)].name << " is not in the frame that was read");
    REQUIRE(p->getTypeName() == T(cm[size_t(k)].type).typeNames(1), "collection " << cm[size_t(k)].name << " has type " << p->getTypeName());
    raw[size_t(k)] = const_cast<Coll*>(p);
  }
  void checkFrame() {
    auto want = frameNames();
    auto got = frame->getAvailableCollections();
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    REQUIRE(want == got, "the frame lists other collections than it has");
    for (auto& [k, v] : strPar) REQUIRE(frame->getParameter<std::vector<std::string>>(k) == v, "parameter " << k << " differs");
    auto same = [&]<typename V>(const std::map<std::string, std::vector<V>>& m) {
      for (auto& [k, v] : m) {
        auto g = frame->getParameter<std::vector<V>>(k);
        REQUIRE(g.has_value() && g->size() == v.size(), "parameter " << k << " is missing");
        for (size_t i = 0; i < v.size(); ++i) REQUIRE(udTo((*g)[i]) == udTo(v[i]), "parameter " << k << " differs");
      }
    };
    same(dblPar);
    same(intPar);
    same(fltPar);
    REQUIRE(frame->getParameterKeys<std::string>().size() == strPar.size(), "number of string parameters");
    REQUIRE(frame->getParameterKeys<double>().size() == dblPar.size(), "number of double parameters");
    REQUIRE(frame->getParameterKeys<int>().size() == intPar.size(), "number of int parameters");
    REQUIRE(frame->getParameterKeys<float>().size() == fltPar.size(), "number of float parameters");
    for (auto& u : ud) {
      const auto* p = frame->get(u.name);
      REQUIRE(p, "user data collection " << u.name << " is missing");
      REQUIRE(p->getTypeName() == uds()[size_t(u.ud)].name, "user data collection " << u.name << " has type " << p->getTypeName());
      REQUIRE(uds()[size_t(u.ud)].read(*p) == u.vals, "user data collection " << u.name << " has other contents");
      REQUIRE(uds()[size_t(u.ud)].typed(*frame, u.name), "typed access to " << u.name);
      REQUIRE(frame->getName(*p) == u.name, "name of user data collection");
    }
    for (size_t k = 0; k < cm.size(); ++k)
      if (inFrame[k] && raw[k]) {
        REQUIRE(frame->getName(*raw[k]) == cm[k].name, "name of collection " << cm[k].name << " cannot be looked up");
        REQUIRE(frame->get(cm[k].name) == raw[k], "collection " << cm[k].name << " moved");
      }
  }
  /// look at everything, fetching collections in random order and checking each as soon as it is there
  void readAll() {
    std::vector<int> todo;
    for (size_t k = 0; k < cm.size(); ++k)
      if (inFrame[k] && !raw[k]) todo.push_back(int(k));
    bool listed = false;
    while (!todo.empty()) {
      const size_t i = c.below(todo.size());
      const int k = todo[i];
      todo.erase(todo.begin() + long(i));
      if (!listed && c.chance(1, 4)) {
        auto want = frameNames();
        auto got = frame->getAvailableCollections();
        std::sort(want.begin(), want.end());
        std::sort(got.begin(), got.end());
        REQUIRE(want == got, "the frame lists other collections than it has while being unpacked");
        listed = true;
      }
      fetch(k);
      c.log("read ", cm[size_t(k)].name);
      checkColl(k, true);
    }
    for (size_t k = 0; k < cm.size(); ++k)
      if (inFrame[k]) checkColl(int(k), true);
    checkFrame();
  }

  /// the world as it should come back when only these collections were stored
  struct ReadTag {};
  FrameWorld(ReadTag, const FrameWorld& o, const std::vector<std::string>& stored) : World(o.c) {
    objs = o.objs;
    cm = o.cm;
    strPar = o.strPar;
    dblPar = o.dblPar;
    intPar = o.intPar;
    fltPar = o.fltPar;
    usedNames = o.usedNames;
    finite = o.finite;
    raw.resize(cm.size());
    cs.resize(cm.size());
    inFrame.assign(cm.size(), false);
    auto isStored = [&](const std::string& n) { return std::find(stored.begin(), stored.end(), n) != stored.end(); };
    for (size_t k = 0; k < cm.size(); ++k) {
      inFrame[k] = k < o.inFrame.size() && o.inFrame[k] && isStored(cm[k].name);
      cm[k].alive = inFrame[k];
    }
    for (auto& u : o.ud)
      if (isStored(u.name)) ud.push_back({u.ud, u.name, u.vals, nullptr});
    for (auto& x : objs) x.alive = x.coll >= 0 && inFrame[size_t(x.coll)];
    auto there = [&](int t) { return t >= 0 && objs[size_t(t)].alive; };
    for (auto& x : objs) {
      for (auto& r : x.ones)
        if (!there(r)) r = NONE;
      for (auto& rs : x.manys)
        for (auto& r : rs)
          if (!there(r)) r = NONE;
    }
    for (auto& k : cm)
      if (k.subset)
        for (auto& i : k.items)
          if (!there(i)) i = NONE;
  }
};
inline std::unique_ptr<FrameWorld> readBack(const FrameWorld& w, const Store& s) {
  std::vector<std::string> names;
  for (auto& c : s.colls) names.push_back(c->name);
  auto r = std::make_unique<FrameWorld>(FrameWorld::ReadTag{}, w, names);
  r->frame = std::make_shared<podio::Frame>(std::make_unique<MemFrameData>(s));
  return r;
}
} // namespace wm
