// Frames and collections used from several threads at once, under the thread sanitizer (C02, C05, C07, C09)
#include "store.h"
#include <barrier>
#include <thread>
using namespace wm;

namespace {
struct Op {
  int kind;
  int arg;
};
/// runs the bodies at the same time; the first failure is rethrown
void runThreads(size_t n, const std::function<void(size_t)>& body) {
  std::vector<std::string> errs(n);
  std::barrier start(static_cast<std::ptrdiff_t>(n));
  std::vector<std::thread> ts;
  for (size_t i = 0; i < n; ++i)
    ts.emplace_back([&, i] {
      start.arrive_and_wait();
      try {
        body(i);
      } catch (const pbt::Fail& f) {
        errs[i] = f.msg;
      } catch (const std::exception& e) {
        errs[i] = std::string("exception: ") + e.what();
      }
    });
  for (auto& t : ts) t.join();
  for (size_t i = 0; i < n; ++i) REQUIRE(errs[i].empty(), "thread " << i << ": " << errs[i]);
}
std::vector<int> collsIn(const FrameWorld& w) {
  std::vector<int> r;
  for (size_t k = 0; k < w.cm.size(); ++k)
    if (w.inFrame[k]) r.push_back(int(k));
  return r;
}
std::vector<Op> script(Case& c, const std::vector<int>& ks, size_t max, bool write) {
  std::vector<Op> r;
  const size_t n = 2 + c.below(max);
  for (size_t i = 0; i < n; ++i) {
    Op o{int(c.weighted({6, 1, 1, 1, 1, write ? 5u : 0u})), 0};
    o.arg = ks.empty() ? -1 : c.pick(ks);
    if (o.arg < 0) o.kind = 1;
    r.push_back(o);
  }
  return r;
}
void perform(FrameWorld& v, const Op& o) {
  const size_t k = size_t(o.arg);
  switch (o.kind) {
  case 0: // get, with everything that can be reached from it
    v.fetch(int(k));
    v.checkColl(int(k), true);
    break;
  case 1: {
    auto want = v.frameNames();
    auto got = v.frame->getAvailableCollections();
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    REQUIRE(want == got, "the frame lists other collections than it has");
    break;
  }
  case 2: {
    REQUIRE(v.frame->getName(v.cm[k].id) == v.cm[k].name, "name of " << v.cm[k].name);
    const auto* p = T(v.cm[k].type).getTyped(*v.frame, v.cm[k].name);
    REQUIRE(p->getID() == v.cm[k].id, "ID of " << v.cm[k].name);
    break;
  }
  case 3:
    for (auto& [n, val] : v.strPar) REQUIRE(v.frame->getParameter<std::vector<std::string>>(n) == val, "parameter " << n);
    REQUIRE(v.frame->getParameterKeys<double>().size() == v.dblPar.size(), "number of parameters");
    break;
  case 4: {
    REQUIRE(v.frame->get("no such collection") == nullptr, "an unknown collection");
    const auto t = v.frame->getCollectionIDTableForWrite();
    REQUIRE(t.name(v.cm[k].id) == v.cm[k].name, "ID table");
    for (auto& u : v.ud) REQUIRE(uds()[size_t(u.ud)].read(*v.frame->get(u.name)) == u.vals, "user data " << u.name);
    break;
  }
  default:
    REQUIRE(v.frame->getCollectionForWrite(v.cm[k].name), "not there for writing");
  }
}
/// each thread has its own idea of what it has seen, and the frame is shared
std::vector<std::unique_ptr<FrameWorld>> views(const FrameWorld& w, size_t n) {
  std::vector<std::unique_ptr<FrameWorld>> r;
  for (size_t i = 0; i < n; ++i) {
    r.push_back(std::make_unique<FrameWorld>(FrameWorld::ReadTag{}, w, w.frameNames()));
    r.back()->frame = w.frame;
  }
  return r;
}
} // namespace

PBT_PROP(frames_can_be_read_from_several_threads) {
  FrameWorld w(c);
  w.populate(6, 5, 30);
  w.putAll(12);
  w.addUserData(2);
  w.addParameters(3);
  auto store = storeFrame(*w.frame, w.someNames(c.flip() ? 5 : 1000));
  auto r = readBack(w, store);
  const auto ks = collsIn(*r);
  const size_t n = 2 + c.below(3);
  const bool sameColl = c.chance(1, 4);
  std::vector<std::vector<Op>> ops;
  for (size_t i = 0; i < n; ++i) ops.push_back(script(c, ks, 8, c.chance(1, 4)));
  if (sameColl && !ks.empty())
    for (auto& o : ops) o[0] = {0, ks[0]};
  // some of it may be unpacked already
  for (auto k : ks)
    if (c.chance(1, 6)) r->frame->get(r->cm[size_t(k)].name);
  auto vs = views(*r, n);
  runThreads(n, [&](size_t i) {
    for (auto& o : ops[i]) perform(*vs[i], o);
  });
  // everybody got the same collections
  for (auto k : ks) {
    const Coll* p = nullptr;
    for (auto& v : vs) {
      if (!v->raw[size_t(k)]) continue;
      REQUIRE(!p || p == v->raw[size_t(k)], "threads got different collections " << v->cm[size_t(k)].name);
      p = v->raw[size_t(k)];
    }
  }
  r->readAll();
  if (ks.size() >= 2) c.nontrivial();
}

PBT_PROP(preparing_from_several_threads) {
  FrameWorld w(c);
  w.populate(4, 5, 25);
  w.putAll(1000);
  w.addUserData(1);
  const auto ks = collsIn(w);
  const size_t n = 2 + c.below(3);
  std::vector<std::vector<Op>> ops;
  for (size_t i = 0; i < n; ++i) ops.push_back(script(c, ks, 8, true));
  const bool all = c.flip() && !ks.empty();
  if (all)
    for (auto& o : ops) o[0] = {5, ks[0]};
  auto vs = views(w, n);
  // objects outside of collections are not part of what the threads look at
  for (auto& v : vs) {
    v->objs = w.objs;
    v->cm = w.cm;
    v->raw = w.raw;
  }
  runThreads(n, [&](size_t i) {
    for (auto& o : ops[i]) perform(*vs[i], o);
  });
  w.checkAll();
  auto r = readBack(w, storeFrame(*w.frame, w.frameNames()));
  r->readAll();
  if (all) c.nontrivial();
}

PBT_PROP(several_threads_put_into_a_frame) {
  // threads put collections, some under the same names, and look at what is there
  podio::Frame f;
  const size_t n = 2 + c.below(3);
  const size_t nn = 1 + c.below(6);
  struct Put {
    int type;
    size_t objs;
    size_t name;
    bool typed;
  };
  std::vector<std::vector<Put>> puts(n);
  for (auto& p : puts)
    for (size_t i = 0, m = 1 + c.below(5); i < m; ++i) p.push_back({int(c.below(size_t(nTypes()))), c.below(4), c.below(nn), c.flip()});
  std::vector<std::vector<const Coll*>> won(n);
  std::vector<std::vector<size_t>> wonName(n);
  std::vector<size_t> refused(n);
  runThreads(n, [&](size_t i) {
    for (auto& p : puts[i]) {
      auto k = T(p.type).newColl();
      for (size_t j = 0; j < p.objs; ++j) (void)T(p.type).create(*k);
      const std::string name = "name" + std::to_string(p.name);
      const Coll* got = nullptr;
      bool ok = true;
      try {
        if (p.typed) {
          got = T(p.type).putTyped(f, *k, name);
        } else {
          got = k.get();
          f.put(std::move(k), name);
        }
      } catch (const std::invalid_argument&) {
        ok = false;
        ++refused[i];
      }
      if (ok) {
        won[i].push_back(got);
        wonName[i].push_back(p.name);
        REQUIRE(f.get(name) == got && got->size() == p.objs && got->hasID(), "what was put as " << name << " is not there");
        REQUIRE(f.getName(*got) == name, "name of what was put");
      } else {
        REQUIRE(f.get(name) != nullptr, "refused, but there is nothing of that name");
      }
      const auto l = f.getAvailableCollections();
      REQUIRE(std::set<std::string>(l.begin(), l.end()).size() == l.size(), "a name is listed twice");
    }
  });
  std::map<size_t, const Coll*> all;
  size_t nRef = 0;
  for (size_t i = 0; i < n; ++i) {
    nRef += refused[i];
    for (size_t j = 0; j < won[i].size(); ++j) REQUIRE(all.emplace(wonName[i][j], won[i][j]).second, "two collections were accepted under one name");
  }
  const auto l = f.getAvailableCollections();
  REQUIRE(l.size() == all.size(), "the frame lists " << l.size() << " collections instead of " << all.size());
  for (auto& [x, p] : all) REQUIRE(f.get("name" + std::to_string(x)) == p, "another collection than the one that was put");
  if (nRef && all.size() > 1) c.nontrivial();
}

PBT_PROP(handles_to_one_object_in_several_threads) {
  // Every thread has its own handles to the same few objects, which it copies, assigns, moves and drops. Nobody
  // modifies the objects, so nothing has to be synchronised
  std::vector<Handle> objs; // objects outside of collections, some of them related to each other
  std::vector<std::vector<u64>> vals;
  const size_t no = 1 + c.below(3);
  for (size_t i = 0; i < no; ++i) {
    const int t = int(c.below(size_t(nTypes())));
    std::vector<u64> v;
    for (auto& l : T(t).leaves) v.push_back(c.bits(l.kind == er::LK::Bool ? 1 : widthOf(l.kind) == 1 ? 7 : 16));
    auto h = T(t).newMutable();
    for (size_t l = 0; l < v.size(); ++l)
      if (T(t).leaves[l].nSet) T(t).setLeaf(h, int(l), 0, v[l]);
    for (size_t r = 0; r < T(t).ones.size() && c.flip(); ++r) {
      const int u = c.pick(T(t).ones[r].targets);
      T(t).setOne(h, int(r), c.flip() ? T(u).newMutable() : T(u).newImmutable());
    }
    for (size_t r = 0; r < T(t).manys.size() && c.flip(); ++r)
      for (size_t j = 0, m = c.below(3); j < m; ++j) {
        const int u = c.pick(T(t).manys[r].targets);
        T(t).manyAdd(h, int(r), c.flip() ? T(u).newMutable() : T(u).newImmutable());
      }
    v.clear();
    for (size_t l = 0; l < T(t).leaves.size(); ++l) v.push_back(T(t).leaf(h, int(l), 0));
    vals.push_back(std::move(v));
    objs.push_back(c.flip() ? h : T(t).toImmutable(h));
  }
  const size_t n = 2 + c.below(3);
  struct Step {
    unsigned kind;
    size_t a, b;
  };
  std::vector<std::vector<Step>> steps(n);
  for (auto& s : steps)
    for (size_t i = 0, m = 3 + c.below(20); i < m; ++i) s.push_back({unsigned(c.weighted({4, 3, 2, 2, 2, 2, 1})), c.below(64), c.below(64)});
  std::vector<std::vector<Handle>> own(n);
  for (auto& o : own) o = objs;
  const bool keep = c.chance(1, 3); // otherwise the last handle is dropped by one of the threads
  // some objects are taken over by a collection in the meantime, which only the first thread has
  const bool store = c.chance(1, 3) && objs[0].mut();
  CollPtr coll = store ? T(objs[0].type()).newColl() : nullptr;
  if (store) T(objs[0].type()).push(*coll, objs[0]);
  if (!keep) objs.clear();
  runThreads(n, [&](size_t i) {
    auto& hs = own[i];
    auto origin = std::vector<size_t>(hs.size());
    for (size_t k = 0; k < hs.size(); ++k) origin[k] = k;
    for (auto& s : steps[i]) {
      if (hs.empty()) break;
      const size_t a = s.a % hs.size(), b = s.b % hs.size();
      const auto& t = T(hs[a].type());
      switch (s.kind) {
      case 0:
        hs.push_back(hs[a]);
        origin.push_back(origin[a]);
        break;
      case 1:
        hs.erase(hs.begin() + long(a));
        origin.erase(origin.begin() + long(a));
        break;
      case 2:
        if (hs[a].type() == hs[b].type() && hs[a].mut() == hs[b].mut() && a != b) {
          t.assign(hs[a], hs[b], false);
          origin[a] = origin[b];
        }
        break;
      case 3:
        if (hs[a].type() == hs[b].type() && hs[a].mut() == hs[b].mut() && a != b) {
          t.swapHandles(hs[a], hs[b]);
          std::swap(origin[a], origin[b]);
        }
        break;
      case 4:
        for (size_t l = 0; l < t.leaves.size(); ++l) REQUIRE(t.leaf(hs[a], int(l), 0) == vals[origin[a]][l], "a handle shows another value of " << t.leaves[l].path << " of " << t.name);
        for (size_t r = 0; r < t.ones.size(); ++r) (void)t.one(hs[a], int(r));
        for (size_t r = 0; r < t.manys.size(); ++r)
          for (size_t k = 0; k < t.manySize(hs[a], int(r)); ++k) (void)t.manyGet(hs[a], int(r), k, 0);
        break;
      case 5: {
        auto k = t.clone(hs[a], 2);
        for (size_t l = 0; l < t.leaves.size(); ++l) REQUIRE(t.leaf(k, int(l), 0) == vals[origin[a]][l], "a clone has another value of " << t.leaves[l].path << " of " << t.name);
        break;
      }
      default:
        if (hs[a].mut()) hs.push_back(t.toImmutable(hs[a])), origin.push_back(origin[a]);
      }
    }
    hs.clear();
  });
  for (size_t i = 0; i < objs.size(); ++i)
    for (size_t l = 0; l < vals[i].size(); ++l) REQUIRE(T(objs[i].type()).leaf(objs[i], int(l), 0) == vals[i][l], "the object has changed");
  if (store) {
    REQUIRE(coll->size() == 1, "the collection has lost the object");
  }
  c.label(store ? "in a collection" : keep ? "kept" : "dropped by a thread");
  size_t counting = 0; // threads that change the number of handles before the end
  for (auto& s : steps) counting += std::ranges::any_of(s, [](const Step& x) { return x.kind != 3 && x.kind != 4; });
  if (counting > 1) c.nontrivial();
}
