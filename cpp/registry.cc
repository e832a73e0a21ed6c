// What is registered for the types of loaded data models: buffers and their evolution (C16), definitions and names (C22)
#ifdef WITH_MODEL
  #include "store.h"
#else
  #include "pbt.h"
#endif
#include "podio/CollectionBase.h"
#include "podio/CollectionBufferFactory.h"
#include "podio/CollectionBuffers.h"
#include "podio/DatamodelRegistry.h"
#include "podio/SchemaEvolution.h"
#include "podio/UserDataCollection.h"
#include "podio/utilities/DatamodelRegistryIOHelpers.h"
#include <algorithm>
#include <atomic>
#include <barrier>
#include <deque>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <thread>
using pbt::Case;
using pbt::u64;
using podio::CollectionReadBuffers;
using podio::CollRefCollection;
using podio::SchemaVersionT;
using podio::VectorMembersInfo;

namespace {
/// what is written to the streams while this lives does not matter
struct Quiet {
  std::ostringstream sink;
  std::streambuf *o, *e;
  Quiet() : o(std::cout.rdbuf(sink.rdbuf())), e(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Quiet() {
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
  }
};
/// names that nothing was registered for before; the registries live as long as the program
std::vector<std::string> freshNames(Case& c, size_t n) {
  static std::atomic<u64> next{0};
  const std::string b = "fresh" + std::to_string(next++) + "_";
  std::vector<std::string> all = {b, b + "Collection", b + "s", b + "::A", b + "::A::B", "a" + b, b + "2", b + " ", b + "::", "x::" + b, b + "<int>", b + "<int, float>"};
  std::vector<std::string> r;
  while (r.size() < n && !all.empty()) {
    const size_t i = c.below(all.size());
    r.push_back(all[i]);
    all.erase(all.begin() + long(i));
  }
  return r;
}
std::string_view staticName(const std::string& s) {
  static std::set<std::string> all;
  return *all.insert(s).first;
}
/// threads may do this at the same time, so not by pbt::Fail
struct Count {
  std::atomic<int> made{0}, deleted{0}, wrong{0};
};
struct Payload {
  int id;
};
CollectionReadBuffers makeBuffers(int id, Count& n, SchemaVersionT v, std::string_view type, bool subset) {
  ++n.made;
  auto* refs = new CollRefCollection();
  refs->push_back(std::make_unique<std::vector<podio::ObjectID>>(size_t(id % 3)));
  auto* p = subset ? nullptr : new Payload{id};
  return {p, refs, new VectorMembersInfo(), v, type, [](CollectionReadBuffers&&, bool) { return std::unique_ptr<podio::CollectionBase>(); },
          [&n, p, refs](CollectionReadBuffers& b) {
            if (b.data == nullptr && b.references == nullptr && b.vectorMembers == nullptr) return;
            if (b.data != p || b.references != refs) ++n.wrong;
            ++n.deleted;
            delete static_cast<Payload*>(b.data);
            delete b.references;
            delete b.vectorMembers;
            b.data = nullptr;
            b.references = nullptr;
            b.vectorMembers = nullptr;
          }};
}
/// the visible parts of buffers
struct Look {
  void* data{};
  CollRefCollection* refs{};
  VectorMembersInfo* vecs{};
  SchemaVersionT version{};
  std::string_view type{};
  explicit Look(const CollectionReadBuffers& b) : data(b.data), refs(b.references), vecs(b.vectorMembers), version(b.schemaVersion), type(b.type) {}
  Look() = default;
  bool operator==(const Look&) const = default;
};
std::ostream& operator<<(std::ostream& o, const Look& l) { return o << l.type << "/" << l.version << "/" << l.data; }
} // namespace

#ifndef WITH_MODEL
// ---------------------------------------------------------------- C16
PBT_PROP_NOLEAK(buffers_have_one_owner) {
  Count n;
  std::vector<std::optional<CollectionReadBuffers>> slots(2 + c.below(4));
  std::vector<std::optional<Look>> model(slots.size()); // nothing, or what a slot has to show
  int expectDeleted = 0, made = 0;
  std::vector<bool> owns(slots.size());
  auto drop = [&](size_t i) {
    expectDeleted += owns[i];
    owns[i] = false;
  };
  int moves = 0;
  for (size_t s = 0, steps = 1 + c.below(24); s < steps; ++s) {
    const size_t i = c.below(slots.size()), j = c.below(slots.size());
    switch (c.weighted({4, 4, 3, 2, 1, 2})) {
    case 0:
      c.log("new buffers in ", i);
      drop(i);
      slots[i].reset();
      slots[i].emplace(makeBuffers(made, n, SchemaVersionT(1 + made % 7), "t", c.chance(1, 4)));
      ++made;
      owns[i] = true;
      model[i] = Look(*slots[i]);
      break;
    case 1:
      if (!slots[j] || !slots[i]) break;
      c.log(i, " = move(", j, ")");
      if (i != j) {
        drop(i);
        model[i] = model[j];
        owns[i] = owns[j];
        model[j] = Look();
        owns[j] = false;
        ++moves;
      }
      if (i == j) {
        auto& self = *slots[j];
        *slots[i] = std::move(self);
      } else
        *slots[i] = std::move(*slots[j]);
      break;
    case 2:
      if (!slots[j] || i == j) break;
      c.log(i, "(move(", j, "))");
      drop(i);
      slots[i].reset();
      slots[i].emplace(std::move(*slots[j]));
      model[i] = model[j];
      owns[i] = owns[j];
      model[j] = Look();
      owns[j] = false;
      ++moves;
      break;
    case 3:
      c.log("drop ", i);
      drop(i);
      slots[i].reset();
      model[i].reset();
      break;
    case 4:
      if (!slots[j]) break;
      c.log("hand on and give back ", j);
      {
        auto pass = [](CollectionReadBuffers&& b) { return podio::SchemaEvolution::noOpSchemaEvolution(std::move(b), 3); };
        *slots[j] = pass(std::move(*slots[j]));
      }
      break;
    default: {
      std::vector<CollectionReadBuffers> v;
      for (size_t k = 0; k < slots.size(); ++k)
        if (slots[k]) v.push_back(std::move(*slots[k])); // also moved when the vector grows
      size_t p = 0;
      for (size_t k = 0; k < slots.size(); ++k)
        if (slots[k]) *slots[k] = std::move(v[p++]);
      c.log("all through a vector");
    }
    }
    REQUIRE(n.made == made && n.deleted == expectDeleted, "deleted " << n.deleted << " of " << n.made << " buffers, " << expectDeleted << " were dropped");
    for (size_t k = 0; k < slots.size(); ++k) {
      REQUIRE(bool(slots[k]) == bool(model[k]), "harness: slot " << k);
      if (!slots[k]) continue;
      const Look l(*slots[k]);
      REQUIRE(l == *model[k], "buffers " << k << " show " << l << " instead of " << *model[k]);
      REQUIRE(!owns[k] || slots[k]->createCollection, "buffers " << k << " lost their functions");
    }
  }
  for (auto& s : slots) s.reset();
  REQUIRE(n.deleted == made && n.wrong == 0, "deleted " << n.deleted << " of " << made << " buffers");
  if (moves >= 2 && made >= 2) c.nontrivial();
}

namespace {
struct Evolutions {
  struct Entry {
    bool user;
    int id;
  };
  struct Type {
    std::string name;
    SchemaVersionT current;
    std::map<SchemaVersionT, Entry> funcs; // as they have to be
    std::set<SchemaVersionT> userDone;
  };
  struct Call {
    int id;
    SchemaVersionT version;
    Look in;
    Look out;
  };
  Count count;
  std::vector<Type> types;
  std::vector<Call> calls; // only when used by one thread
  bool record{true};
  std::atomic<int> badCalls{0};
  int nextId{0}, nextPayload{0};

  /// a function that knows what it was registered for
  auto func(const std::string& type, SchemaVersionT from, SchemaVersionT current, int kind) {
    const auto t = staticName(type);
    const int id = nextId++;
    auto f = [this, t, from, current, id, kind](CollectionReadBuffers&& b, SchemaVersionT v) -> CollectionReadBuffers {
      const Look in(b);
      if (v != from || b.schemaVersion != from || b.type != t) ++badCalls;
      CollectionReadBuffers r;
      if (kind == 0) {
        b.schemaVersion = current;
        r = std::move(b);
      } else {
        r = makeBuffers(1000 + id, count, current, t, in.data == nullptr);
        if (kind == 1) {
          // takes the parts it needs, leaves the rest to be deleted with the old buffers
          (void)in;
        } else
          b = CollectionReadBuffers(); // gets rid of the old ones itself
      }
      if (record) calls.push_back({id, v, in, Look(r)});
      return r;
    };
    return std::make_pair(f, id);
  }
  void add(Case& c, size_t ti, SchemaVersionT from, bool user, int kind) {
    auto& t = types[ti];
    if (user && !t.userDone.insert(from).second) return; // once only
    auto [f, id] = func(t.name, from, t.current, kind);
    using P = podio::SchemaEvolution::Priority;
    c.log("register ", id, " for ", t.name, " ", from, "->", t.current, user ? " by user" : "");
    auto& ev = podio::SchemaEvolution::mutInstance();
    if (user && kind % 2)
      ev.registerEvolutionFunc(t.name, from, t.current, f);
    else
      ev.registerEvolutionFunc(t.name, from, t.current, f, user ? P::UserDefined : P::AutoGenerated);
    const auto it = t.funcs.find(from);
    if (it == t.funcs.end() || user || !it->second.user) t.funcs[from] = {user, id};
  }
};
SchemaVersionT someVersion(Case& c, SchemaVersionT current) {
  switch (c.weighted({6, 1, 1, 1, 1})) {
  case 0:
    return SchemaVersionT(1 + c.below(current));
  case 1:
    return 0;
  case 2:
    return current;
  case 3:
    return current + 1;
  default:
    return SchemaVersionT(c.bits(4));
  }
}
} // namespace

PBT_PROP(evolution_dispatches_on_type_and_version) {
  Quiet quiet;
  // the registry keeps the functions, and they keep this
  static std::deque<std::unique_ptr<Evolutions>> all;
  all.push_back(std::make_unique<Evolutions>());
  auto& e = *all.back();
  const auto names = freshNames(c, 1 + c.below(4));
  for (auto& n : names) e.types.push_back({n, SchemaVersionT(1 + c.below(c.chance(1, 8) ? 40 : 6)), {}, {}});
  const auto& ev = podio::SchemaEvolution::instance();
  int evolved = 0, refused = 0;
  for (size_t s = 0, steps = 3 + c.below(28); s < steps; ++s) {
    const size_t ti = c.below(e.types.size());
    auto& t = e.types[ti];
    switch (c.weighted({4, 1, 6})) {
    case 0:
      e.add(c, ti, SchemaVersionT(1 + c.below(t.current)), c.chance(1, 3), int(c.below(3)));
      break;
    case 1: // as generated code does
      for (SchemaVersionT v = 1; v <= t.current; ++v) e.add(c, ti, v, false, int(c.below(3)));
      break;
    default: {
      const bool unknown = c.chance(1, 10);
      const std::string name = unknown ? t.name + c.pick(std::vector<std::string>{"x", "Collection", ":", "\n"}) : t.name;
      const bool isType = std::any_of(e.types.begin(), e.types.end(), [&](auto& x) { return x.name == name; });
      if (unknown && isType) break;
      const auto from = someVersion(c, t.current);
      const int id = e.nextPayload++;
      auto b = makeBuffers(id, e.count, from, staticName(name), c.chance(1, 5));
      const Look before(b);
      e.calls.clear();
      const int deleted = e.count.deleted;
      c.log("evolve ", name, " from ", from);
      {
        auto r = ev.evolveBuffers(std::move(b), from, name);
        const auto f = unknown || from == t.current ? t.funcs.end() : t.funcs.find(from);
        if (f == t.funcs.end()) {
          REQUIRE(e.calls.empty(), "function " << e.calls[0].id << " ran on " << before << ", none is registered for that");
          REQUIRE(Look(r) == before, "buffers became " << Look(r) << " instead of staying " << before);
          REQUIRE(e.count.deleted == deleted, "buffers were deleted");
          refused += from != t.current;
        } else {
          REQUIRE(e.calls.size() == 1, e.calls.size() << " functions ran on " << before);
          const auto& k = e.calls[0];
          REQUIRE(k.id == f->second.id, "function " << k.id << " ran on " << before << " instead of " << f->second.id);
          REQUIRE(k.in == before, "the function got " << k.in << " instead of " << before);
          REQUIRE(Look(r) == k.out, "result is " << Look(r) << " instead of " << k.out);
          ++evolved;
        }
      }
    }
    }
    REQUIRE(e.badCalls == 0, "a function was called with buffers it was not registered for");
    REQUIRE(e.count.deleted == e.count.made && e.count.wrong == 0, "deleted " << e.count.deleted << " of " << e.count.made << " buffers");
  }
  bool twice = false;
  for (auto& t : e.types) twice |= t.funcs.size() >= 2;
  if (evolved >= 2 && twice) c.nontrivial();
  if (refused) c.label("nothing registered for the version");
  // no case's functions are called again; what they count into stays
}

namespace {
struct Creations {
  struct Type {
    std::string name;
    std::map<SchemaVersionT, int> funcs; // for every version
  };
  Count count;
  std::vector<Type> types;
  std::atomic<int> lastId{-1};
  int nextId{0};
};
} // namespace

PBT_PROP(buffers_are_created_for_type_and_version) {
  static std::deque<std::unique_ptr<Creations>> all;
  all.push_back(std::make_unique<Creations>());
  auto& e = *all.back();
  for (auto& n : freshNames(c, 1 + c.below(4))) e.types.push_back({n, {}});
  const auto& fac = podio::CollectionBufferFactory::instance();
  int made = 0, refused = 0;
  for (size_t s = 0, steps = 3 + c.below(24); s < steps; ++s) {
    auto& t = c.pick(e.types);
    auto& T = const_cast<Creations::Type&>(t);
    if (c.chance(1, 3)) {
      const SchemaVersionT max = T.funcs.empty() ? 0 : T.funcs.rbegin()->first;
      const SchemaVersionT v = SchemaVersionT(1 + c.below(c.chance(1, 8) ? 60 : max + 4));
      const int id = e.nextId++;
      c.log("register ", id, " for ", T.name, " version ", v);
      podio::CollectionBufferFactory::mutInstance().registerCreationFunc(T.name, v, [&e, id, v, n = staticName(T.name)](bool subset) {
        e.lastId = id;
        return makeBuffers(id, e.count, v, n, subset);
      });
      for (SchemaVersionT i = max + 1; i < v; ++i) T.funcs[i] = id;
      T.funcs[v] = id;
    } else {
      const bool unknown = c.chance(1, 10);
      const std::string name = unknown ? T.name + c.pick(std::vector<std::string>{"x", "Collection", ":", " "}) : T.name;
      if (unknown && std::any_of(e.types.begin(), e.types.end(), [&](auto& x) { return x.name == name; })) break;
      const SchemaVersionT max = T.funcs.empty() ? 1 : T.funcs.rbegin()->first;
      const auto v = someVersion(c, max);
      const bool subset = c.chance(1, 3);
      e.lastId = -1;
      c.log("create ", name, " version ", v);
      auto b = fac.createBuffers(name, v, subset);
      const auto it = unknown ? T.funcs.end() : T.funcs.find(v);
      if (it == T.funcs.end()) {
        REQUIRE(!b, "got buffers " << Look(*b) << " for " << name << " version " << v << ", nothing is registered for that");
        REQUIRE(e.lastId == -1, "a creation function was called");
        ++refused;
      } else {
        REQUIRE(bool(b), "got no buffers for " << name << " version " << v);
        REQUIRE(e.lastId == it->second, "function " << e.lastId << " was called for " << name << " version " << v << " instead of " << it->second);
        REQUIRE(b->type == T.name && (b->data == nullptr) == subset && (subset || static_cast<Payload*>(b->data)->id == it->second), "buffers are " << Look(*b));
        ++made;
      }
    }
    REQUIRE(e.count.deleted == e.count.made && e.count.wrong == 0, "deleted " << e.count.deleted << " of " << e.count.made << " buffers");
  }
  if (made >= 3 && refused >= 1) c.nontrivial();
}

PBT_PROP(registered_functions_run_on_several_threads) {
  Quiet quiet;
  static std::deque<std::unique_ptr<Evolutions>> all;
  all.push_back(std::make_unique<Evolutions>());
  auto& e = *all.back();
  e.record = false;
  for (auto& n : freshNames(c, 1 + c.below(3))) {
    e.types.push_back({n, SchemaVersionT(2 + c.below(4)), {}, {}});
    auto& t = e.types.back();
    for (SchemaVersionT v = 1; v <= t.current; ++v) e.add(c, e.types.size() - 1, v, c.chance(1, 3), int(c.below(3)));
    podio::CollectionBufferFactory::mutInstance().registerCreationFunc(t.name, t.current, [&e, v = t.current, n = staticName(t.name)](bool s) {
      return makeBuffers(1, e.count, v, n, s);
    });
  }
  const size_t n = 2 + c.below(3);
  std::vector<std::vector<std::pair<size_t, SchemaVersionT>>> plans(n);
  for (auto& p : plans)
    for (size_t i = 0, m = 1 + c.below(6); i < m; ++i) {
      const size_t ti = c.below(e.types.size());
      p.emplace_back(ti, SchemaVersionT(1 + c.below(e.types[ti].current)));
    }
  std::atomic<int> bad{0};
  std::barrier start{long(n)};
  std::vector<std::thread> ts;
  for (size_t k = 0; k < n; ++k)
    ts.emplace_back([&, k] {
      start.arrive_and_wait();
      for (auto [ti, v] : plans[k]) {
        auto& t = e.types[ti];
        auto b = podio::CollectionBufferFactory::instance().createBuffers(t.name, v, false);
        if (!b || b->type != t.name || b->schemaVersion != t.current) {
          ++bad;
          continue;
        }
        b->schemaVersion = v;
        auto r = podio::SchemaEvolution::instance().evolveBuffers(std::move(*b), v, t.name);
        if (r.schemaVersion != t.current || r.type != t.name || !r.data) ++bad;
      }
    });
  for (auto& t : ts) t.join();
  REQUIRE(bad == 0 && e.badCalls == 0, bad << " wrong results, " << e.badCalls << " wrong calls");
  REQUIRE(e.count.deleted == e.count.made && e.count.wrong == 0, "deleted " << e.count.deleted << " of " << e.count.made << " buffers");
  c.nontrivial();
}

// ---------------------------------------------------------------- C22
namespace {
struct TypeNames {
  std::string name;
  std::vector<std::string_view> relations, vecs;
};
struct DataModel {
  std::string name;
  size_t index;
  std::string_view definition;
  std::optional<podio::version::Version> version;
  bool versionKnown{true};
  std::vector<TypeNames> types;
};
/// nothing but an index
struct OneOf final : public podio::CollectionBase {
  size_t index;
  explicit OneOf(size_t i) : index(i) {}
  void prepareForWrite() const override {}
  void prepareAfterRead() override {}
  bool setReferences(const podio::ICollectionProvider*) override { return true; }
  podio::CollectionWriteBuffers getBuffers() override { return {}; }
  void setID(uint32_t) override {}
  uint32_t getID() const override { return 0; }
  std::size_t size() const override { return 0; }
  std::size_t max_size() const override { return 0; }
  bool empty() const override { return true; }
  bool hasID() const override { return false; }
  const std::string_view getTypeName() const override { return "OneOf"; }
  const std::string_view getValueTypeName() const override { return "One"; }
  const std::string_view getDataTypeName() const override { return "OneData"; }
  bool isSubsetCollection() const override { return false; }
  void setSubsetCollection(bool) override {}
  SchemaVersionT getSchemaVersion() const override { return 1; }
  size_t getDatamodelRegistryIndex() const override { return index; }
  void print(std::ostream&, bool) const override {}
  void clear() override {}
  bool isValid() const override { return true; }
};
std::string describe(const std::vector<std::string_view>& v) {
  std::string r;
  for (auto& s : v) r += "[" + std::string(s) + "]";
  return r;
}
using Defs = std::vector<std::tuple<std::string, std::string>>;
void checkModel(const DataModel& m) {
  const auto& r = podio::DatamodelRegistry::instance();
  REQUIRE(r.getDatamodelName(m.index) == m.name, "index " << m.index << " has the name " << r.getDatamodelName(m.index) << " instead of " << m.name);
  REQUIRE(r.getDatamodelDefinition(m.index) == m.definition, "definition by index of " << m.name << " is " << r.getDatamodelDefinition(m.index));
  REQUIRE(r.getDatamodelDefinition(m.name) == m.definition, "definition by name of " << m.name << " is " << r.getDatamodelDefinition(m.name));
  if (m.versionKnown) {
    const auto v = r.getDatamodelVersion(m.name);
    REQUIRE(v == m.version, "version of " << m.name << " is " << (v ? std::string(*v) : "none") << " instead of " << (m.version ? std::string(*m.version) : "none"));
  }
  for (auto& t : m.types)
    for (auto n : {t.name, t.name + "Collection"}) {
      const auto x = r.getRelationNames(n);
      REQUIRE(x.relations == t.relations, "relations of " << n << " are " << describe(x.relations) << " instead of " << describe(t.relations));
      REQUIRE(x.vectorMembers == t.vecs, "vector members of " << n << " are " << describe(x.vectorMembers) << " instead of " << describe(t.vecs));
    }
}
} // namespace

PBT_PROP(data_models_stay_registered_as_they_were) {
  Quiet quiet;
  auto& reg = podio::DatamodelRegistry::mutInstance();
  static std::deque<podio::RelationNameMapping> mappings; // registered ones have to stay
  std::vector<DataModel> models;
  const auto names = freshNames(c, 2 + c.below(4));
  bool again = false, versioned = false;
  auto someText = [&] { return staticName("{" + c.text(12) + "}"); };
  auto someNames = [&](size_t n) {
    std::vector<std::string_view> r;
    for (size_t i = c.below(n); i > 0; --i) r.push_back(staticName(c.ident(6)));
    return r;
  };
  static u64 typeNo = 0;
  static size_t nReg = [] { // what generated models registered before
    size_t i = 0;
    while (!podio::DatamodelRegistry::instance().getDatamodelName(i).empty()) ++i;
    return i;
  }();
  for (size_t s = 0, steps = 2 + c.below(10); s < steps; ++s) {
    const auto name = c.pick(names);
    DataModel m{name, nReg, someText(), std::nullopt, true, {}};
    podio::RelationNameMapping map;
    for (size_t i = c.below(4); i > 0; --i) {
      static const std::vector<std::string> ends = {"", "Data", "Collection", "::Collection", "Coll", "CollectionCollection"};
      TypeNames t{"T" + std::to_string(typeNo++) + c.pick(ends), someNames(4), someNames(4)};
      if (c.flip()) t.name = "n::" + t.name;
      map.emplace_back(staticName(t.name), t.relations, t.vecs);
      m.types.push_back(t);
    }
    mappings.push_back(std::move(map));
    if (c.flip()) m.version = podio::version::Version{uint16_t(c.bits(2)), uint16_t(c.bits(2)), uint16_t(c.bits(2))};
    c.log("register ", name, m.version ? " with version " + std::string(*m.version) : "", " and ", m.types.size(), " types");
    const size_t i = m.version ? reg.registerDatamodel(name, m.definition, mappings.back(), *m.version) : reg.registerDatamodel(name, m.definition, mappings.back());
    auto known = std::find_if(models.begin(), models.end(), [&](auto& x) { return x.name == name; });
    if (known != models.end()) {
      REQUIRE(i == known->index, name << " got the index " << i << ", it was " << known->index);
      if (!known->version && m.version) known->versionKnown = false;
      again = true;
    } else {
      REQUIRE(i == nReg, name << " got the index " << i << ", not the next one " << nReg);
      ++nReg;
      versioned |= bool(m.version);
      models.push_back(m);
    }
    for (auto& x : models) checkModel(x);
    for (size_t k : {nReg, nReg + 1, podio::DatamodelRegistry::NoDefinitionNecessary, podio::DatamodelRegistry::NoDefinitionAvailable})
      REQUIRE(reg.getDatamodelDefinition(k) == "{}" && reg.getDatamodelName(k).empty(), "index " << k << " has the name " << reg.getDatamodelName(k) << " and definition " << reg.getDatamodelDefinition(k));
    for (auto& x : names)
      for (const std::string n : {x, x + "Collection", x + "?"}) {
        if (std::any_of(models.begin(), models.end(), [&](auto& y) { return y.name == n; })) continue;
        REQUIRE(reg.getDatamodelDefinition(n) == "{}", "unknown model " << n << " has the definition " << reg.getDatamodelDefinition(n));
        REQUIRE(!reg.getDatamodelVersion(n), "unknown model " << n << " has a version");
      }
    for (const std::string n : {"", "Collection", "UnknownType", "UnknownTypeCollection", "int", "podio::UserDataCollection<int>"}) {
      const auto x = reg.getRelationNames(n);
      REQUIRE(x.relations.empty() && x.vectorMembers.empty(), "type " << n << " has names");
    }
    for (const std::string n : {"podio::Link<A,B>", "podio::LinkCollection<A,B>"}) {
      const auto x = reg.getRelationNames(n);
      REQUIRE(describe(x.relations) == "[from][to]" && x.vectorMembers.empty(), "links have the relations " << describe(x.relations));
    }
  }
  if (models.size() >= 2 && again && versioned) c.nontrivial();
}

PBT_PROP(definitions_are_collected_and_handed_out) {
  Quiet quiet;
  auto& reg = podio::DatamodelRegistry::mutInstance();
  static const podio::RelationNameMapping nothing;
  struct M {
    std::string name;
    std::string_view definition;
    size_t index;
  };
  std::vector<M> ms;
  for (auto& n : freshNames(c, c.below(6))) {
    const auto d = staticName(c.text(20));
    ms.push_back({n, d, reg.registerDatamodel(n, d, nothing)});
  }
  podio::DatamodelDefinitionCollector coll;
  std::set<std::pair<std::string, std::string>> want;
  size_t collected = 0;
  podio::UserDataCollection<int> ud;
  for (size_t s = 0, steps = c.below(10); s < steps; ++s) {
    switch (c.weighted({5, 1, 1, 1})) {
    case 0:
      if (!ms.empty()) {
        const auto& m = c.pick(ms);
        OneOf o(m.index);
        coll.registerDatamodelDefinition(&o, "coll" + std::to_string(s));
        want.emplace(m.name, std::string(m.definition));
        ++collected;
      }
      break;
    case 1: {
      OneOf o(podio::DatamodelRegistry::NoDefinitionNecessary);
      coll.registerDatamodelDefinition(&o, "none needed");
      break;
    }
    case 2: {
      OneOf o(podio::DatamodelRegistry::NoDefinitionAvailable);
      coll.registerDatamodelDefinition(&o, "none there");
      break;
    }
    default:
      coll.registerDatamodelDefinition(&ud, "user data");
    }
    const auto defs = coll.getDatamodelDefinitionsToWrite();
    std::set<std::pair<std::string, std::string>> got;
    for (auto& [n, d] : defs) REQUIRE(got.emplace(n, d).second, n << " is collected twice");
    REQUIRE(got == want, "collected " << got.size() << " definitions instead of " << want.size() << " or others");
  }
  // what a file gives back: its definitions, some with versions
  auto defs = coll.getDatamodelDefinitionsToWrite();
  podio::DatamodelDefinitionHolder::VersionList versions;
  std::map<std::string, podio::version::Version> vs;
  for (auto& [n, d] : defs)
    if (c.flip()) {
      const podio::version::Version v{uint16_t(c.bits(2)), uint16_t(c.bits(2)), uint16_t(c.bits(2))};
      versions.emplace_back(n, v);
      vs.emplace(n, v);
    }
  const auto had = defs;
  podio::DatamodelDefinitionHolder made(std::move(defs), std::move(versions)), h;
  if (c.flip())
    h = std::move(made);
  else
    h = podio::DatamodelDefinitionHolder(std::move(made));
  const auto names = h.getAvailableDatamodels();
  REQUIRE(names.size() == had.size(), names.size() << " models instead of " << had.size());
  for (size_t i = 0; i < had.size(); ++i) {
    const auto& [n, d] = had[i];
    REQUIRE(names[i] == n, "model " << i << " is " << names[i]);
    REQUIRE(h.getDatamodelDefinition(n) == d, "definition of " << n << " is " << h.getDatamodelDefinition(n));
    const auto v = h.getDatamodelVersion(n);
    REQUIRE(bool(v) == bool(vs.count(n)) && (!v || *v == vs.at(n)), "version of " << n);
  }
  for (auto& m : ms)
    for (const std::string n : {m.name, m.name + "x", std::string()}) {
      if (std::any_of(had.begin(), had.end(), [&](auto& x) { return std::get<0>(x) == n; })) continue;
      REQUIRE(h.getDatamodelDefinition(n) == "{}" && !h.getDatamodelVersion(n), "there is something for " << n);
    }
  if (had.size() >= 2 && collected > had.size()) c.nontrivial();
}

#else
using namespace wm;
// ---------------------------------------------------------------- types of generated models
namespace {
struct Nobody final : podio::ICollectionProvider {
  bool get(uint32_t, podio::CollectionBase*&) const override { return false; }
};
std::string joined(const std::vector<std::string_view>& v) {
  std::string r;
  for (auto& s : v) r += "[" + std::string(s) + "]";
  return r;
}
/// whether a vector of something in write buffers has elements
bool hasElements(void* vecPtr) {
  const auto* v = *static_cast<std::vector<char>**>(vecPtr);
  return v && v->data() != v->data() + v->size();
}
} // namespace

PBT_PROP_NOLEAK(types_can_be_created_at_all_their_versions) {
  Quiet quiet;
  const int ti = int(c.below(size_t(nTypes())));
  const auto& t = T(ti);
  const auto coll = t.newColl();
  const std::string name(coll->getTypeName());
  const auto current = coll->getSchemaVersion();
  REQUIRE(current >= 1, "schema version of " << name << " is " << current);
  const auto& fac = podio::CollectionBufferFactory::instance();
  for (SchemaVersionT v : {SchemaVersionT(0), current + 1, SchemaVersionT(-1)}) REQUIRE(!fac.createBuffers(name, v, c.flip()), name << " can be created at version " << v);
  const SchemaVersionT v = SchemaVersionT(1 + c.below(current));
  const bool subset = c.chance(1, 3);
  auto b = fac.createBuffers(name, v, subset);
  REQUIRE(b, name << " cannot be created at version " << v << " of " << current);
  REQUIRE(b->type == name, "buffers of " << name << " are for " << b->type);
  REQUIRE(b->schemaVersion == v || v != current, "buffers of " << name << " have version " << b->schemaVersion << " instead of " << v);
  REQUIRE(b->createCollection && b->deleteBuffers, "buffers of " << name << " have no functions");
  const size_t nrefs = t.isLink ? 2 : t.ones.size() + t.manys.size();
  if (subset) {
    REQUIRE(!b->data, "subset buffers of " << name << " have data");
    REQUIRE(b->references && b->references->size() == 1, "subset buffers of " << name << " have " << (b->references ? b->references->size() : 0) << " reference vectors");
  } else {
    REQUIRE(b->data, "buffers of " << name << " have no data");
    REQUIRE((b->references ? b->references->size() : 0) == nrefs, "buffers of " << name << " have " << (b->references ? b->references->size() : 0) << " reference vectors instead of " << nrefs);
    REQUIRE((b->vectorMembers ? b->vectorMembers->size() : 0) == t.vecs.size(), "buffers of " << name << " have " << (b->vectorMembers ? b->vectorMembers->size() : 0) << " vector members");
  }
  if (b->references)
    for (auto& r : *b->references) REQUIRE(r && r->empty(), "references of new buffers of " << name << " are not empty");
  const bool used = c.flip();
  c.label(used ? "made into a collection" : "dropped");
  if (!used) return;
  const Look before(*b);
  auto e = podio::SchemaEvolution::instance().evolveBuffers(std::move(*b), v, name);
  if (v == current) REQUIRE(Look(e) == before, "buffers of the current version of " << name << " are changed");
  auto made = e.createCollection(std::move(e), subset);
  REQUIRE(made && made->getTypeName() == name && made->getValueTypeName() == coll->getValueTypeName() && made->getDataTypeName() == coll->getDataTypeName(), "buffers of " << name << " make a " << made->getTypeName());
  REQUIRE(made->isSubsetCollection() == subset, "collection of " << name << " is " << (subset ? "not " : "") << "a subset");
  REQUIRE(made->getSchemaVersion() == current && made->getDatamodelRegistryIndex() == coll->getDatamodelRegistryIndex(), "made collection of " << name);
  made->prepareAfterRead();
  const Nobody nobody;
  REQUIRE(made->setReferences(&nobody), name << ": setReferences fails");
  REQUIRE(made->empty() && made->size() == 0, "new collection of " << name << " is not empty");
  if (nrefs || !t.vecs.empty()) c.nontrivial();
}

PBT_PROP(types_lead_to_their_data_model) {
  Quiet quiet;
  const auto& reg = podio::DatamodelRegistry::instance();
  podio::DatamodelDefinitionCollector collector;
  std::set<std::string> want;
  for (size_t s = 0, steps = c.below(6); s < steps; ++s) {
    const auto& t = T(int(c.below(size_t(nTypes()))));
    const auto coll = t.newColl();
    const auto index = coll->getDatamodelRegistryIndex();
    const auto names = reg.getRelationNames(t.typeNames(int(c.below(3)))); // type, collection, value type
    std::vector<std::string_view> rel, vecs;
    for (auto& r : t.manys) rel.push_back(r.name);
    for (auto& r : t.ones) rel.push_back(r.name);
    for (auto& v : t.vecs) vecs.push_back(v.name);
    REQUIRE(names.relations == rel, t.name << " has the relations " << joined(names.relations) << " instead of " << joined(rel));
    REQUIRE(names.vectorMembers == vecs, t.name << " has the vector members " << joined(names.vectorMembers) << " instead of " << joined(vecs));
    collector.registerDatamodelDefinition(coll.get(), "c" + std::to_string(s));
    if (t.isLink) {
      REQUIRE(index == podio::DatamodelRegistry::NoDefinitionNecessary, "links have the registry index " << index);
    } else {
      want.insert(t.package);
      REQUIRE(reg.getDatamodelName(index) == t.package, t.name << " is from the data model " << reg.getDatamodelName(index));
      const auto def = reg.getDatamodelDefinition(index);
      REQUIRE(def == reg.getDatamodelDefinition(t.package), "definitions by index and name differ");
      REQUIRE(def.size() > 2 && def.find("\"" + std::string(t.name) + "\"") != def.npos, "the definition does not have " << t.name);
      // every collection of the data model says the same
      const auto sub = t.newColl();
      sub->setSubsetCollection();
      REQUIRE(sub->getDatamodelRegistryIndex() == index, "subset collections say another data model");
    }
  }
  podio::UserDataCollection<float> ud;
  REQUIRE(ud.getDatamodelRegistryIndex() == podio::DatamodelRegistry::NoDefinitionNecessary, "user data has a data model");
  collector.registerDatamodelDefinition(&ud, "ud");
  std::set<std::string> got;
  for (auto& [n, d] : collector.getDatamodelDefinitionsToWrite()) {
    REQUIRE(got.insert(n).second, n << " is collected twice");
    REQUIRE(d == reg.getDatamodelDefinition(n), "another definition of " << n << " is collected");
  }
  REQUIRE(got == want, "collected " << got.size() << " data models instead of " << want.size());
  if (want.size() >= 1) c.nontrivial();
}

PBT_PROP(names_and_buffers_are_in_the_same_order) {
  // backends use the names of relations and vector members for the buffers at the same places
  Quiet quiet;
  const int ti = int(c.below(size_t(nTypes())));
  const auto& t = T(ti);
  const auto names = podio::DatamodelRegistry::instance().getRelationNames(t.typeNames(2));
  const auto coll = t.newColl();
  coll->setID(1);
  struct Set {
    std::string_view name;
    podio::ObjectID id;
  };
  std::vector<Set> set;
  std::set<std::string_view> filled;
  std::vector<CollPtr> others;
  auto obj = t.create(*coll);
  auto target = [&](const er::RelInfo& r) {
    const auto& u = T(c.pick(r.targets));
    others.push_back(u.newColl());
    others.back()->setID(uint32_t(1 + others.size()));
    Handle h;
    for (size_t i = 1 + c.below(3); i > 0; --i) h = u.create(*others.back());
    set.push_back({r.name, u.id(h, 0)});
    return h;
  };
  for (size_t r = 0; r < t.ones.size(); ++r)
    if (c.chance(2, 3)) t.setOne(obj, int(r), target(t.ones[r]));
  for (size_t r = 0; r < t.manys.size(); ++r)
    if (c.chance(2, 3)) t.manyAdd(obj, int(r), target(t.manys[r]));
  for (size_t v = 0; v < t.vecs.size(); ++v)
    if (c.chance(2, 3)) {
      t.vecAdd(obj, int(v), std::vector<u64>(t.vecs[v].leaves.size()));
      filled.insert(t.vecs[v].name);
    }
  coll->prepareForWrite();
  const auto b = coll->getBuffers();
  REQUIRE((b.references ? b.references->size() : 0) == names.relations.size(), (b.references ? b.references->size() : 0) << " reference buffers for " << names.relations.size() << " names");
  REQUIRE((b.vectorMembers ? b.vectorMembers->size() : 0) == names.vectorMembers.size(), (b.vectorMembers ? b.vectorMembers->size() : 0) << " vector member buffers for " << names.vectorMembers.size() << " names");
  for (size_t i = 0; i < names.relations.size(); ++i) {
    const auto& ids = *(*b.references)[i];
    const auto it = std::find_if(set.begin(), set.end(), [&](auto& x) { return x.name == names.relations[i]; });
    if (it != set.end())
      REQUIRE(ids.size() == 1 && ids[0] == it->id, t.name << ": the buffer of relation " << it->name << " does not have its target");
    else
      REQUIRE(ids.empty() || (ids.size() == 1 && ids[0].index < 0), t.name << ": the buffer of relation " << names.relations[i] << " has a target that was not set");
  }
  for (size_t i = 0; i < names.vectorMembers.size(); ++i)
    REQUIRE(hasElements((*b.vectorMembers)[i].second) == bool(filled.count(names.vectorMembers[i])), t.name << ": the buffer of vector member " << names.vectorMembers[i]);
  if (set.size() + filled.size() >= 2) c.nontrivial();
}
#endif
