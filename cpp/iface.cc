// Interface values are transparent references to their object (C14)
#include "pbt.h"
#include <algorithm>
#include <bit>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>
#ifdef GETSYN
  #include "vig/IRCollection.h"
  #include "vig/Two.h"
  #include "vig/Three.h"
  #include "vig/IACollection.h"
  #include "vig/IBCollection.h"
  #include "vig/ICCollection.h"
  #define G(o, n, N) o.get##N
  #define S(o, n, N) o.set##N
  #define A(o, n, N) o.addTo##N
#else
  #include "vi/IRCollection.h"
  #include "vi/Two.h"
  #include "vi/Three.h"
  #include "vi/IACollection.h"
  #include "vi/IBCollection.h"
  #include "vi/ICCollection.h"
  #define G(o, n, N) o.n
  #define S(o, n, N) o.n
  #define A(o, n, N) o.add##n
#endif
using pbt::Case;

namespace {
template <typename I>
constexpr bool isThree = std::is_same_v<I, in::Three>;

/// what one concrete object is
template <typename X>
struct Conc {
  typename X::mutable_type h;
};
struct World {
  Case& c;
  IACollection as;
  IBCollection bs;
  in::ICCollection cs;
  std::vector<MutableIA> fa;
  std::vector<MutableIB> fb;
  std::vector<in::MutableIC> fc;
  explicit World(Case& cc) : c(cc) {
    auto fill = [&](auto& coll, auto& fr) {
      for (size_t i = 0, n = 1 + c.below(2); i < n; ++i) change(coll.create());
      fr.resize(c.below(3));
      for (auto& x : fr) change(x);
    };
    fill(as, fa);
    fill(bs, fb);
    fill(cs, fc);
    if (c.flip()) as.setID(7), bs.setID(8), cs.setID(9);
  }
  template <typename M>
  void change(M h) {
    if (c.flip()) S(h, tag, Tag)(short(c.bits(2)));
    if (c.flip()) S(h, arr, Arr)({int(c.bits(4)), 4, int(c.below(5))});
    if (c.flip()) S(h, pos, Pos)({float(c.below(100)), int(c.bits(4))});
    if (c.flip()) S(h, w, W)(c.finiteDouble());
  }
  template <typename X>
  size_t n() {
    if constexpr (std::is_same_v<X, IA>)
      return as.size() + fa.size();
    else if constexpr (std::is_same_v<X, IB>)
      return bs.size() + fb.size();
    else
      return cs.size() + fc.size();
  }
  template <typename X>
  typename X::mutable_type get(size_t i) {
    if constexpr (std::is_same_v<X, IA>)
      return i < as.size() ? as[i] : fa[i - as.size()];
    else if constexpr (std::is_same_v<X, IB>)
      return i < bs.size() ? bs[i] : fb[i - bs.size()];
    else
      return i < cs.size() ? cs[i] : fc[i - cs.size()];
  }
  /// call f with the mutable object number i of type t (0 IA, 1 IB, 2 IC)
  template <typename F>
  void with(int t, size_t i, F&& f) {
    switch (t) {
    case 0:
      return f(get<IA>(i));
    case 1:
      return f(get<IB>(i));
    default:
      return f(get<in::IC>(i));
    }
  }
  size_t count(int t) { return t == 0 ? n<IA>() : t == 1 ? n<IB>() : n<in::IC>(); }
};
template <typename X>
constexpr int typeOf() {
  return std::is_same_v<X, IA> ? 0 : std::is_same_v<X, IB> ? 1 : 2;
}
struct Key {
  int type;
  int obj; // -1: unavailable
  auto operator<=>(const Key&) const = default;
};

template <typename I>
struct Tester {
  static constexpr int nt = isThree<I> ? 3 : 2;
  static constexpr int firstType = isThree<I> ? 2 : 0; // the type empty values have
  Case& c;
  World& w;
  std::vector<std::pair<I, Key>> vals;

  template <typename X>
  void checkType(const I& v, const Key& k, bool avail) {
    const bool want = k.type == typeOf<X>();
    REQUIRE(v.template isA<X>() == want, "isA is wrong");
    if (!want) {
      REQUIRE_THROWS_AS((void)v.template as<X>(), std::runtime_error, "converting to a type the value does not have");
    } else {
      const X x = v.template as<X>();
      REQUIRE(x.isAvailable() == avail, "availability of the converted object");
      if (avail) REQUIRE(x == w.get<X>(size_t(k.obj)), "as() gives another object");
    }
    // comparison with every concrete object
    for (size_t i = 0; i < w.n<X>(); ++i) {
      const auto m = w.get<X>(i);
      const X im = m;
      const bool eq = avail && want && int(i) == k.obj;
      REQUIRE((v == I(im)) == eq && (v != I(m)) == !eq, "comparison with a concrete object (as interface value) is wrong");
      REQUIRE((v == im) == eq && (im == v) == eq && (v != im) == !eq, "comparison with a concrete object is wrong");
      if (eq) {
        REQUIRE(std::hash<I>{}(v) == std::hash<X>{}(im), "hash differs from that of the object");
        REQUIRE(!(v < I(im)) && !(I(im) < v), "an equal value is ordered before or after");
      } else
        REQUIRE((v < I(im)) != (I(im) < v), "ordering is not total on different objects");
    }
  }
  void check(const I& v, const Key& k) {
    const bool avail = k.obj >= 0;
    REQUIRE(v.isAvailable() == avail, "isAvailable() is " << !avail);
    checkType<IA>(v, k, avail);
    checkType<IB>(v, k, avail);
    if constexpr (isThree<I>) checkType<in::IC>(v, k, avail);
    if (!avail) {
      REQUIRE(v.id() == podio::ObjectID{} && v.getObjectID() == podio::ObjectID{}, "an unavailable value has an ID");
      return;
    }
    w.with(k.type, size_t(k.obj), [&](const auto& m) {
      REQUIRE(v.id() == m.id() && v.getObjectID() == m.getObjectID(), "ID differs from that of the object");
      REQUIRE(G(v, tag, Tag)() == G(m, tag, Tag)(), "member tag differs");
      REQUIRE(G(v, arr, Arr)() == G(m, arr, Arr)(), "member arr differs");
      for (size_t i = 0; i < 3; ++i) REQUIRE(G(v, arr, Arr)(i) == G(m, arr, Arr)(i), "element of member arr differs");
      if constexpr (isThree<I>) {
        REQUIRE(G(v, pos, Pos)().x == G(m, pos, Pos)().x && G(v, pos, Pos)().y == G(m, pos, Pos)().y, "member pos differs");
        REQUIRE(std::bit_cast<uint64_t>(double(G(v, w, W)())) == std::bit_cast<uint64_t>(double(G(m, w, W)())), "member w differs");
      }
      std::ostringstream a, b;
      a << v;
      b << std::remove_cvref_t<decltype(v.template as<typename std::remove_cvref_t<decltype(m)>::object_type>())>(m);
      REQUIRE(a.str() == b.str(), "prints differently from the object");
    });
  }
  std::pair<I, Key> make() {
    std::pair<I, Key> r{I::makeEmpty(), {firstType, -1}};
    switch (c.draw(8)) {
    case 0:
      return r;
    case 1:
      return {I{}, {firstType, -1}};
    case 2: { // an unavailable object
      const int t = int(c.below(size_t(nt)));
      r.second = {t, -1};
      switch (t) {
      case 0:
        r.first = IA::makeEmpty();
        break;
      case 1:
        r.first = I(IB::makeEmpty());
        break;
      default:
        if constexpr (isThree<I>) r.first = in::IC::makeEmpty();
      }
      return r;
    }
    default:
      break;
    }
    const int t = int(c.below(size_t(nt)));
    const size_t i = c.below(w.count(t));
    const int how = int(c.draw(4));
    auto f = [&](const auto& m) {
      using X = typename std::remove_cvref_t<decltype(m)>::object_type;
      if constexpr (I::template isInitializableFrom<X>) {
        switch (how) {
        case 0:
          r.first = I(m);
          break;
        case 1:
          r.first = I(X(m));
          break;
        case 2:
          r.first = m; // implicit conversion
          break;
        default:
          r.first = X(m);
        }
      }
    };
    w.with(t, i, f);
    r.second = {t, int(i)};
    return r;
  }
  void run() {
    size_t ops = 0;
    for (size_t s = 0, n = 4 + c.below(20); s < n; ++s) {
      if (vals.empty() || (vals.size() < 10 && c.chance(1, 3))) {
        auto v = make();
        check(v.first, v.second);
        vals.push_back(v);
        continue;
      }
      const size_t i = c.below(vals.size());
      const size_t j = c.below(vals.size());
      ++ops;
      switch (c.draw(9)) {
      case 0:
        if (vals.size() < 14) vals.push_back(vals[i]);
        break;
      case 1:
        vals[i].first = vals[j].first;
        vals[i].second = vals[j].second;
        break;
      case 2: { // move construction and assignment
        I t(std::move(vals[i].first));
        check(t, vals[i].second);
        vals[i].first = std::move(t);
        break;
      }
      case 3: {
        using std::swap;
        if (i != j) {
          swap(vals[i].first, vals[j].first);
          swap(vals[i].second, vals[j].second);
        }
        break;
      }
      case 4:
        vals[i].first.unlink();
        vals[i].second.obj = -1;
        break;
      case 5: {
        auto v = make();
        vals[i].first = v.first;
        vals[i].second = v.second;
        break;
      }
      case 6: { // the object changes behind the value
        if (vals[i].second.obj >= 0) w.with(vals[i].second.type, size_t(vals[i].second.obj), [&](const auto& m) { w.change(m); });
        break;
      }
      case 7: { // through relations
        MutableIR r;
        if constexpr (isThree<I>) {
          S(r, three, Three)(vals[i].first);
          A(r, threes, Threes)(vals[i].first);
          A(r, threes, Threes)(vals[j].first);
          check(G(r, three, Three)(), vals[i].second);
          check(G(r, threes, Threes)(0), vals[i].second);
          check(G(r, threes, Threes)()[1], vals[j].second);
          const IR im = r;
          check(*im.threes_begin(), vals[i].second);
        } else {
          S(r, two, Two)(vals[i].first);
          A(r, twos, Twos)(vals[j].first);
          check(G(r, two, Two)(), vals[i].second);
          const IR im = r;
          check(G(im, twos, Twos)(0), vals[j].second);
        }
        // setting a relation directly from the object
        if (vals[i].second.obj >= 0)
          w.with(vals[i].second.type, size_t(vals[i].second.obj), [&](const auto& m) {
            using X = typename std::remove_cvref_t<decltype(m)>::object_type;
            if constexpr (isThree<I>) {
              S(r, three, Three)(m);
              check(G(r, three, Three)(), vals[i].second);
              A(r, threes, Threes)(X(m));
              check(G(r, threes, Threes)(2), vals[i].second);
            } else if constexpr (I::template isInitializableFrom<X>) {
              S(r, two, Two)(X(m));
              check(G(r, two, Two)(), vals[i].second);
            }
          });
        break;
      }
      default: { // objects of the same type in a new interface value
        if (vals[i].second.obj >= 0)
          w.with(vals[i].second.type, size_t(vals[i].second.obj), [&](const auto& m) {
            using X = typename std::remove_cvref_t<decltype(m)>::object_type;
            if constexpr (I::template isInitializableFrom<X>) {
              I again(vals[i].first.template as<X>());
              check(again, vals[i].second);
              REQUIRE(again == vals[i].first, "a value made from the converted object differs");
              I cl(m.clone());
              REQUIRE(cl != vals[i].first, "a value of a clone equals that of the original");
            }
          });
      }
      }
      check(vals[i].first, vals[i].second);
      check(vals[j].first, vals[j].second);
    }
    for (auto& [v, k] : vals) check(v, k);
    // all pairs; unavailable values of different types are not compared by order
    std::map<I, Key> om;
    std::unordered_map<I, Key> um;
    size_t eqs = 0;
    for (auto& [a, ka] : vals)
      for (auto& [b, kb] : vals) {
        const bool eq = ka == kb;
        REQUIRE((a == b) == eq && (a != b) == !eq, "comparison of interface values is wrong");
        if (eq) {
          REQUIRE(std::hash<I>{}(a) == std::hash<I>{}(b), "equal values have different hashes");
          REQUIRE(!(a < b) && !(b < a), "equal values are ordered");
          eqs += &a != &b;
        } else if (ka.obj >= 0 || kb.obj >= 0) {
          REQUIRE((a < b) != (b < a), "different values are not ordered");
        }
        for (auto& [d, kd] : vals)
          if (a < b && b < d) REQUIRE(a < d, "ordering is not transitive");
      }
    std::set<Key> keys;
    for (auto& [a, k] : vals) {
      if (k.obj < 0) continue;
      keys.insert(k);
      om.emplace(a, k);
      um.emplace(a, k);
    }
    REQUIRE(om.size() == keys.size() && um.size() == keys.size(), "containers keyed by interface values have the wrong size");
    for (auto& [a, k] : vals)
      if (k.obj >= 0) REQUIRE(om.at(a) == k && um.at(a) == k, "lookup by interface value gives another one");
    if (ops >= 3 && keys.size() >= 2) c.nontrivial();
    c.label(eqs ? "equal values" : "no equal values");
  }
};
} // namespace

PBT_PROP_NOLEAK(interface_values_are_transparent) {
  World w(c);
  if (c.flip())
    Tester<Two>{c, w, {}}.run();
  else
    Tester<in::Three>{c, w, {}}.run();
}
