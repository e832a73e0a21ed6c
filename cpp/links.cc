// Links with their typed interface (C12) and navigation over them (C13)
#include "pbt.h"
#include <algorithm>
#include <bit>
#include <map>
#include <memory>
#include <unordered_set>
#include "podio/Frame.h"
#include "podio/LinkCollection.h"
#include "podio/LinkNavigator.h"
#include "vm/CluCollection.h"
#include "vm/EnergyIf.h"
#include "vm/HitTrkLinkCollection.h"
#include "vm/IfLinkCollection.h"
#include "vm/SelfLinkCollection.h"
#include "vm/VertexCollection.h"
using pbt::Case;

namespace {
constexpr int UNSET = -1;
/// where objects come from: some in collections, some free
struct Objects {
  HitCollection hits;
  TrackCollection tracks;
  PartCollection parts;
  ns::VertexCollection vtxs;
  CluCollection clus;
  ns::CalCollection cals;
  std::vector<MutableHit> freeHits;
  std::vector<MutableTrack> freeTracks;
  std::vector<MutablePart> freeParts;
  std::vector<ns::MutableVertex> freeVtxs;
  std::vector<MutableClu> freeClus;
  std::vector<ns::MutableCal> freeCals;
  explicit Objects(Case& c) {
    auto fill = [&](auto& coll, auto& fr) {
      for (size_t i = 0, n = 1 + c.below(3); i < n; ++i) coll.create();
      fr.resize(c.below(3));
    };
    fill(hits, freeHits);
    fill(tracks, freeTracks);
    fill(parts, freeParts);
    fill(vtxs, freeVtxs);
    fill(clus, freeClus);
    fill(cals, freeCals);
  }
};
template <typename T>
auto& collOf(Objects& o) {
  if constexpr (std::is_same_v<T, Hit>)
    return o.hits;
  else if constexpr (std::is_same_v<T, Track>)
    return o.tracks;
  else if constexpr (std::is_same_v<T, Part>)
    return o.parts;
  else if constexpr (std::is_same_v<T, ns::Vertex>)
    return o.vtxs;
  else if constexpr (std::is_same_v<T, Clu>)
    return o.clus;
  else
    return o.cals;
}
template <typename T>
auto& freeOf(Objects& o) {
  if constexpr (std::is_same_v<T, Hit>)
    return o.freeHits;
  else if constexpr (std::is_same_v<T, Track>)
    return o.freeTracks;
  else if constexpr (std::is_same_v<T, Part>)
    return o.freeParts;
  else if constexpr (std::is_same_v<T, ns::Vertex>)
    return o.freeVtxs;
  else if constexpr (std::is_same_v<T, Clu>)
    return o.freeClus;
  else
    return o.freeCals;
}
/// A numbering of all the objects that can be at one end of a link
template <typename E>
struct End { // a datatype
  static constexpr bool isInterface = false;
  static size_t n(Objects& o) { return collOf<E>(o).size() + freeOf<E>(o).size(); }
  static typename E::mutable_type mut(Objects& o, size_t i) {
    auto& c = collOf<E>(o);
    return i < c.size() ? c[i] : freeOf<E>(o)[i - c.size()];
  }
  template <typename F>
  static void with(Objects& o, size_t i, F&& f) {
    f(mut(o, i));
  }
  static E value(Objects& o, size_t i) { return E(mut(o, i)); }
  static E empty() { return E::makeEmpty(); }
};
template <>
struct End<EnergyIf> {
  static constexpr bool isInterface = true;
  static size_t n(Objects& o) { return End<Hit>::n(o) + End<Part>::n(o) + End<ns::Cal>::n(o); }
  template <typename F>
  static void with(Objects& o, size_t i, F&& f) {
    if (i < End<Hit>::n(o)) return f(End<Hit>::mut(o, i));
    i -= End<Hit>::n(o);
    if (i < End<Part>::n(o)) return f(End<Part>::mut(o, i));
    i -= End<Part>::n(o);
    f(End<ns::Cal>::mut(o, i));
  }
  static EnergyIf value(Objects& o, size_t i) {
    EnergyIf r = EnergyIf::makeEmpty();
    with(o, i, [&](const auto& m) { r = EnergyIf(m); });
    return r;
  }
  static EnergyIf empty() { return EnergyIf::makeEmpty(); }
};

struct Lm {
  float w{1.f};
  int from{UNSET}, to{UNSET};
};
bool sameW(float a, float b) { return std::bit_cast<uint32_t>(a) == std::bit_cast<uint32_t>(b); }

template <typename Coll>
struct Tester {
  using F = typename Coll::from_type;
  using T = typename Coll::to_type;
  using L = typename Coll::value_type;
  using M = typename Coll::mutable_type;
  using EF = End<F>;
  using ET = End<T>;
  static constexpr bool same = std::is_same_v<F, T>;

  Case& c;
  Objects& o;
  Tester(Case& cc, Objects& oo) : c(cc), o(oo) {}

  template <typename E>
  static void checkEnd(Objects& o, const E& got, int want, const char* how) {
    if (want < 0) {
      REQUIRE(!got.isAvailable(), how << ": end is set");
    } else {
      REQUIRE(got.isAvailable(), how << ": end is not available");
      REQUIRE(got == End<E>::value(o, size_t(want)), how << ": end is another object");
    }
  }
  template <typename X>
  void check(const X& l, const Lm& m) {
    REQUIRE(l.isAvailable(), "link is not available");
    REQUIRE(sameW(l.getWeight(), m.w), "weight is " << l.getWeight() << " instead of " << m.w);
    REQUIRE(sameW(l.template get<2>(), m.w), "get<2>() is " << l.template get<2>() << " instead of " << m.w);
    checkEnd<F>(o, l.getFrom(), m.from, "getFrom");
    checkEnd<T>(o, l.getTo(), m.to, "getTo");
    checkEnd<F>(o, l.template get<0>(), m.from, "get<0>");
    checkEnd<T>(o, l.template get<1>(), m.to, "get<1>");
    if constexpr (!same) {
      checkEnd<F>(o, l.template get<F>(), m.from, "get<From>");
      checkEnd<T>(o, l.template get<T>(), m.to, "get<To>");
    }
    const auto& [f, t, w] = l;
    checkEnd<F>(o, f, m.from, "structured binding");
    checkEnd<T>(o, t, m.to, "structured binding");
    REQUIRE(sameW(w, m.w), "weight from a structured binding");
  }
  void genW(float& w) {
    const uint32_t b = uint32_t(c.floatBits(4, false));
    w = std::bit_cast<float>(b);
  }
  void setFrom(M& l, Lm& m) {
    if (EF::n(o) == 0) return;
    if (c.chance(1, 10)) {
      l.setFrom(EF::empty());
      m.from = UNSET;
      return;
    }
    const size_t i = c.below(EF::n(o));
    m.from = int(i);
    switch (c.draw(same ? 3 : 6)) {
    case 0:
      l.setFrom(EF::value(o, i));
      break;
    case 1: // the concrete mutable object
      EF::with(o, i, [&](const auto& x) { l.setFrom(x); });
      break;
    case 2: // the concrete immutable object
      EF::with(o, i, [&](const auto& x) { l.setFrom(podio::detail::GetDefaultHandleType<std::remove_cvref_t<decltype(x)>>(x)); });
      break;
    case 3:
      if constexpr (!same) l.set(EF::value(o, i));
      break;
    case 4:
      if constexpr (!same) EF::with(o, i, [&](const auto& x) { l.set(x); });
      break;
    default:
      if constexpr (!same)
        EF::with(o, i, [&](const auto& x) { l.set(podio::detail::GetDefaultHandleType<std::remove_cvref_t<decltype(x)>>(x)); });
      break;
    }
  }
  void setTo(M& l, Lm& m) {
    if (ET::n(o) == 0) return;
    if (c.chance(1, 10)) {
      l.setTo(ET::empty());
      m.to = UNSET;
      return;
    }
    const size_t i = c.below(ET::n(o));
    m.to = int(i);
    switch (c.draw(same ? 3 : 6)) {
    case 0:
      l.setTo(ET::value(o, i));
      break;
    case 1:
      ET::with(o, i, [&](const auto& x) { l.setTo(x); });
      break;
    case 2:
      ET::with(o, i, [&](const auto& x) { l.setTo(podio::detail::GetDefaultHandleType<std::remove_cvref_t<decltype(x)>>(x)); });
      break;
    case 3:
      if constexpr (!same) l.set(ET::value(o, i));
      break;
    case 4:
      if constexpr (!same) ET::with(o, i, [&](const auto& x) { l.set(x); });
      break;
    default:
      if constexpr (!same)
        ET::with(o, i, [&](const auto& x) { l.set(podio::detail::GetDefaultHandleType<std::remove_cvref_t<decltype(x)>>(x)); });
      break;
    }
  }
  void modify(M& l, Lm& m) {
    switch (c.draw(3)) {
    case 0:
      genW(m.w);
      l.setWeight(m.w);
      break;
    case 1:
      setFrom(l, m);
      break;
    default:
      setTo(l, m);
    }
  }
  void fill(Coll& coll, std::vector<Lm>& ms, size_t n) {
    for (size_t i = 0; i < n; ++i) {
      Lm m;
      if (c.flip()) {
        auto l = coll.create();
        if (!c.chance(1, 6)) setFrom(l, m);
        if (!c.chance(1, 6)) setTo(l, m);
        if (c.flip()) {
          genW(m.w);
          l.setWeight(m.w);
        }
      } else {
        M l = [&] {
          if (c.flip()) return M{};
          genW(m.w);
          return M(m.w);
        }();
        if (!c.chance(1, 6)) setTo(l, m);
        if (!c.chance(1, 6)) setFrom(l, m);
        coll.push_back(l);
      }
      ms.push_back(m);
    }
  }
  void links() {
    Coll coll;
    std::vector<Lm> ms;
    struct Fr {
      M l;
      Lm m;
    };
    std::vector<Fr> fr;
    const size_t n = 3 + c.below(25);
    size_t sets = 0;
    for (size_t s = 0; s < n; ++s) {
      switch (c.draw(9)) {
      case 0: {
        auto l = coll.create();
        ms.emplace_back();
        check(l, ms.back());
        break;
      }
      case 1: {
        Fr f{M{}, {}};
        check(f.l, f.m);
        fr.push_back(f);
        break;
      }
      case 2: {
        Lm m;
        genW(m.w);
        Fr f{M(m.w), m};
        check(f.l, f.m);
        const L im(m.w);
        check(im, m);
        fr.push_back(f);
        break;
      }
      case 3: // into the collection
        if (!fr.empty()) {
          const size_t i = c.below(fr.size());
          auto l = fr[i].l;
          coll.push_back(l);
          REQUIRE(l.id().index == int(ms.size()), "index of a link that was added");
          ms.push_back(fr[i].m);
          check(l, ms.back());
          fr.erase(fr.begin() + long(i));
          REQUIRE_THROWS_AS(coll.push_back(l), std::invalid_argument, "adding a link twice");
        }
        break;
      case 4: // clone
        if (!ms.empty()) {
          const size_t i = c.below(ms.size());
          const bool rel = c.flip();
          Fr f{c.flip() ? std::as_const(coll)[i].clone(rel) : coll[i].clone(rel), ms[i]};
          if (!rel) f.m.from = f.m.to = UNSET;
          check(f.l, f.m);
          REQUIRE(!(f.l == coll[i]), "a clone is its original");
          REQUIRE(f.l.id().index == podio::ObjectID::untracked, "a clone has an ID");
          fr.push_back(f);
        }
        break;
      default:
        if (!ms.empty() && c.flip()) {
          const size_t i = c.below(ms.size());
          auto l = coll[i];
          modify(l, ms[i]);
          check(l, ms[i]);
          check(L(l), ms[i]);
          ++sets;
        } else if (!fr.empty()) {
          const size_t i = c.below(fr.size());
          modify(fr[i].l, fr[i].m);
          const L im = fr[i].l;
          check(im, fr[i].m);
          REQUIRE(im == fr[i].l && fr[i].l == im && !(im != fr[i].l), "an immutable link differs from the mutable one");
          ++sets;
        }
      }
    }
    REQUIRE(coll.size() == ms.size(), "number of links");
    size_t i = 0;
    for (const auto& l : std::as_const(coll)) check(l, ms[i++]);
    i = 0;
    for (auto l : coll) check(l, ms[i++]);
    for (auto& f : fr) check(f.l, f.m);
    Coll moved(std::move(coll));
    for (i = 0; i < ms.size(); ++i) check(moved[i], ms[i]);
    // through a frame, by type
    podio::Frame frame;
    const auto& in = frame.put(std::move(moved), "links");
    REQUIRE(in.size() == ms.size(), "number of links in a frame");
    for (i = 0; i < ms.size(); ++i) check(in[i], ms[i]);
    const auto& got = frame.template get<Coll>("links");
    REQUIRE(&got == &in, "the collection in the frame is another one");
    if (sets >= 2 && !ms.empty()) c.nontrivial();
  }

  template <typename V, typename Want>
  static void sameEntries(Objects& o, const V& got, const Want& want, const char* how) {
    using E = std::remove_cvref_t<decltype(got[0].o)>;
    REQUIRE(got.size() == want.size(), how << ": " << got.size() << " entries instead of " << want.size());
    std::vector<bool> used(got.size(), false);
    for (const auto& [obj, w] : want) {
      bool found = false;
      for (size_t i = 0; i < got.size() && !found; ++i) {
        if (used[i] || !sameW(got[i].weight, w)) continue;
        const bool match = obj < 0 ? !got[i].o.isAvailable() : (got[i].o.isAvailable() && got[i].o == End<E>::value(o, size_t(obj)));
        if (match) used[i] = found = true;
      }
      REQUIRE(found, how << ": no entry for object " << obj << " with weight " << w);
    }
  }
  void navigate() {
    Coll coll;
    std::vector<Lm> ms;
    fill(coll, ms, c.some(14, 150));
    // possibly via a subset collection
    Coll sub;
    bool useSub = c.chance(1, 4);
    std::vector<Lm> navMs = ms;
    if (useSub) {
      sub.setSubsetCollection();
      navMs.clear();
      for (size_t i = 0, n = ms.empty() ? 0 : c.count(8); i < n; ++i) {
        const size_t j = c.below(ms.size());
        sub.push_back(coll[j]);
        navMs.push_back(ms[j]);
      }
      c.label("navigator over a subset collection");
    }
    const podio::LinkNavigator<Coll> first(useSub ? sub : coll);
    const auto nav = first; // copies are just as good
    size_t hits = 0;
    using P = std::vector<std::pair<int, float>>;
    for (size_t i = 0; i < EF::n(o); ++i) {
      P want;
      for (auto& m : navMs)
        if (m.from == int(i)) want.emplace_back(m.to, m.w);
      hits = std::max(hits, want.size());
      const F f = EF::value(o, i);
      sameEntries(o, nav.getLinkedTo(f), want, "getLinkedTo");
      sameEntries(o, nav.getLinked(f, podio::ReturnTo), want, "getLinked(ReturnTo)");
      EF::with(o, i, [&](const auto& m) { sameEntries(o, nav.getLinkedTo(m), want, "getLinkedTo(mutable)"); });
      if constexpr (!same) {
        sameEntries(o, nav.getLinked(f), want, "getLinked(from)");
        if constexpr (!EF::isInterface) sameEntries(o, nav.getLinked(EF::mut(o, i)), want, "getLinked(mutable from)");
      }
    }
    for (size_t i = 0; i < ET::n(o); ++i) {
      P want;
      for (auto& m : navMs)
        if (m.to == int(i)) want.emplace_back(m.from, m.w);
      hits = std::max(hits, want.size());
      const T t = ET::value(o, i);
      sameEntries(o, nav.getLinkedFrom(t), want, "getLinkedFrom");
      sameEntries(o, nav.getLinked(t, podio::ReturnFrom), want, "getLinked(ReturnFrom)");
      ET::with(o, i, [&](const auto& m) { sameEntries(o, nav.getLinkedFrom(m), want, "getLinkedFrom(mutable)"); });
      if constexpr (!same) {
        sameEntries(o, nav.getLinked(t), want, "getLinked(to)");
        if constexpr (!ET::isInterface) sameEntries(o, nav.getLinked(ET::mut(o, i)), want, "getLinked(mutable to)");
      }
    }
    // unset ends
    P noFrom, noTo;
    for (auto& m : navMs) {
      if (m.from < 0) noFrom.emplace_back(m.to, m.w);
      if (m.to < 0) noTo.emplace_back(m.from, m.w);
    }
    sameEntries(o, nav.getLinkedTo(EF::empty()), noFrom, "getLinkedTo(unavailable)");
    sameEntries(o, nav.getLinkedFrom(ET::empty()), noTo, "getLinkedFrom(unavailable)");
    // an object that is in no link
    if constexpr (!EF::isInterface) REQUIRE(nav.getLinkedTo(F(typename F::mutable_type{})).empty(), "links of an object that has none");
    if constexpr (!ET::isInterface) REQUIRE(nav.getLinkedFrom(T(typename T::mutable_type{})).empty(), "links of an object that has none");
    if (hits >= 2) c.nontrivial();
    c.label(hits >= 2 ? "object with several links" : "objects with at most one link");
  }
};
template <typename F>
void anyLink(Case& c, F&& f) {
  switch (c.draw(8)) {
  case 0:
    return c.label("Hit-Track"), f(static_cast<HitTrkLinkCollection*>(nullptr));
  case 1:
    return c.label("Part-Part"), f(static_cast<ns::SelfLinkCollection*>(nullptr));
  case 2:
    return c.label("EnergyIf-Vertex"), f(static_cast<IfLinkCollection*>(nullptr));
  case 3:
    return c.label("undeclared Clu-Part"), f(static_cast<podio::LinkCollection<Clu, Part>*>(nullptr));
  case 4:
    return c.label("undeclared Clu-EnergyIf"), f(static_cast<podio::LinkCollection<Clu, EnergyIf>*>(nullptr));
  case 5:
    return c.label("undeclared EnergyIf-EnergyIf"), f(static_cast<podio::LinkCollection<EnergyIf, EnergyIf>*>(nullptr));
  case 6:
    return c.label("undeclared Vertex-Cal"), f(static_cast<podio::LinkCollection<ns::Vertex, ns::Cal>*>(nullptr));
  default:
    return c.label("undeclared Hit-Hit"), f(static_cast<podio::LinkCollection<Hit, Hit>*>(nullptr));
  }
}
} // namespace

PBT_PROP_NOLEAK(links_store_both_ends) {
  Objects o(c);
  anyLink(c, [&]<typename C>(C*) { Tester<C>(c, o).links(); });
}
PBT_PROP_NOLEAK(navigator_returns_exactly_linked) {
  Objects o(c);
  anyLink(c, [&]<typename C>(C*) { Tester<C>(c, o).navigate(); });
}
