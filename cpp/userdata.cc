// User data collections against plain vectors (C17)
#include "pbt.h"
#include "podio/CollectionBufferFactory.h"
#include "podio/Frame.h"
#include "podio/UserDataCollection.h"
#include <algorithm>
#include <cstring>
#include <list>
#include <memory>
#include <numeric>
#include <optional>
#include <ranges>
using pbt::Case;

namespace {
template <typename V>
V gen(Case& c) {
  const pbt::u64 b = std::is_floating_point_v<V> ? c.floatBits(sizeof(V), false) : c.bits(sizeof(V));
  V v;
  std::memcpy(&v, &b, sizeof v);
  return v;
}
template <typename V>
bool same(const V& a, const V& b) {
  return std::memcmp(&a, &b, sizeof(V)) == 0;
}
template <typename V>
std::string name();
#define N(t)                                                                                                           \
  template <>                                                                                                          \
  std::string name<t>() {                                                                                              \
    return #t;                                                                                                         \
  }
N(float) N(double) N(int8_t) N(int16_t) N(int32_t) N(int64_t) N(uint8_t) N(uint16_t) N(uint32_t) N(uint64_t)
#undef N

template <typename V, typename R>
void sameRange(const R& r, const std::vector<V>& m, const char* how) {
  size_t i = 0;
  for (const auto& v : r) {
    REQUIRE(i < m.size(), how << ": too many elements");
    REQUIRE(same<V>(v, m[i]), how << ": element " << i << " differs");
    ++i;
  }
  REQUIRE(i == m.size(), how << ": " << i << " elements instead of " << m.size());
}
template <typename V>
void check(podio::UserDataCollection<V>& c, const std::vector<V>& m) {
  const auto& k = c;
  const podio::CollectionBase& b = c;
  REQUIRE(c.size() == m.size() && b.size() == m.size() && std::ranges::size(k) == m.size(), "size is " << c.size() << " instead of " << m.size());
  REQUIRE(c.empty() == m.empty() && b.empty() == m.empty(), "empty() is wrong");
  REQUIRE(c.max_size() >= m.size(), "max_size() is wrong");
  for (size_t i = 0; i < m.size(); ++i) {
    REQUIRE(same<V>(c[i], m[i]) && same<V>(k[i], m[i]) && same<V>(c.at(i), m[i]) && same<V>(k.at(i), m[i]), "element " << i << " differs");
    REQUIRE(same<V>(c.begin()[long(i)], m[i]) && same<V>(*(k.end() - long(m.size() - i)), m[i]), "element " << i << " by iterator differs");
  }
  for (size_t past : {m.size(), m.size() + 1, size_t(-1)}) {
    REQUIRE_THROWS_AS((void)c.at(past), std::out_of_range, "at() past the end");
    REQUIRE_THROWS_AS((void)k.at(past), std::out_of_range, "at() past the end");
  }
  sameRange(c, m, "iteration");
  sameRange(k, m, "const iteration");
  sameRange(std::ranges::subrange(k.cbegin(), k.cend()), m, "cbegin");
  sameRange(c.vec(), m, "vec()");
  sameRange(k.vec(), m, "const vec()");
  std::vector<V> rev(m.rbegin(), m.rend());
  sameRange(std::ranges::subrange(c.rbegin(), c.rend()), rev, "reverse iteration");
  sameRange(std::ranges::subrange(k.rbegin(), k.rend()), rev, "const reverse iteration");
  sameRange(std::ranges::subrange(k.crbegin(), k.crend()), rev, "crbegin");
  REQUIRE(k.end() - k.begin() == long(m.size()) && std::distance(c.begin(), c.end()) == long(m.size()), "distance");
  const auto tn = "podio::UserDataCollection<" + name<V>() + ">";
  REQUIRE(c.getTypeName() == tn && podio::UserDataCollection<V>::typeName == tn, "type name is " << c.getTypeName());
  REQUIRE(c.getValueTypeName() == name<V>() && podio::UserDataCollection<V>::valueTypeName == name<V>(), "value type name is " << c.getValueTypeName());
  REQUIRE(c.getDataTypeName() == name<V>() && podio::UserDataCollection<V>::dataTypeName == name<V>(), "data type name is " << c.getDataTypeName());
  REQUIRE(!c.isSubsetCollection(), "is a subset collection");
}
/// what a storage backend does; through data or vecPtr
template <typename V>
std::vector<V> write(Case& c, podio::CollectionBase& coll) {
  coll.prepareForWrite();
  auto b = coll.getBuffers();
  const auto* viaVec = b.dataAsVector<V>();
  const auto* viaData = *static_cast<std::vector<V>**>(b.data);
  REQUIRE(viaVec == viaData, "the two ways to reach the data of the write buffers disagree");
  REQUIRE(b.references && b.references->empty() && b.vectorMembers && b.vectorMembers->empty(), "user data has references or vector members");
  (void)c;
  return *viaVec;
}
struct Data {
  std::vector<uint32_t> ids;
  std::vector<std::string> names;
  std::optional<podio::CollectionReadBuffers> buf;
  podio::CollectionIDTable getIDTable() const { return {ids, names}; }
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string& n) {
    if (n != names[0]) return std::nullopt;
    auto r = std::move(buf);
    buf.reset();
    return r;
  }
  std::vector<std::string> getAvailableCollections() const { return buf ? names : std::vector<std::string>{}; }
  std::unique_ptr<podio::GenericParameters> getParameters() { return std::make_unique<podio::GenericParameters>(); }
};
template <typename V>
void run(Case& c) {
  using C = podio::UserDataCollection<V>;
  auto coll = std::make_unique<C>();
  std::vector<V> m;
  auto genVec = [&] {
    std::vector<V> r;
    for (size_t i = 0, n = c.some(20); i < n; ++i) r.push_back(gen<V>(c));
    return r;
  };
  check(*coll, m);
  size_t changes = 0, kinds = 0;
  std::set<pbt::u64> ops;
  const size_t n = 2 + c.below(25);
  for (size_t s = 0; s < n; ++s) {
    const auto op = c.draw(18);
    ops.insert(op);
    switch (op) {
    case 0: {
      auto& v = coll->create();
      REQUIRE(same<V>(v, V{}), "a created element is not zero");
      m.emplace_back();
      if (c.flip()) {
        v = gen<V>(c);
        m.back() = coll->vec().back();
        REQUIRE(same<V>(v, m.back()), "create() does not refer to the new element");
      }
      break;
    }
    case 1:
    case 2: {
      const V v = gen<V>(c);
      coll->push_back(v);
      m.push_back(v);
      break;
    }
    case 3: {
      const size_t k = c.chance(1, 8) ? c.below(300) : c.below(m.size() + 5);
      coll->resize(k);
      m.resize(k);
      break;
    }
    case 4:
    case 5:
      if (!m.empty()) {
        const size_t i = c.below(m.size());
        const V v = gen<V>(c);
        switch (c.draw(5)) {
        case 0:
          (*coll)[i] = v;
          break;
        case 1:
          coll->at(i) = v;
          break;
        case 2:
          *(coll->begin() + long(i)) = v;
          break;
        case 3:
          *(coll->rend() - long(i) - 1) = v;
          break;
        default:
          coll->vec()[i] = v;
        }
        m[i] = v;
      }
      break;
    case 6: {
      m = genVec();
      coll->vec() = m;
      break;
    }
    case 7: {
      auto v = genVec();
      auto want = v;
      coll->vec().swap(v);
      m.swap(want);
      sameRange(v, want, "what was swapped out");
      break;
    }
    case 8:
      coll->clear();
      m.clear();
      break;
    case 9: {
      auto o = std::make_unique<C>(std::move(*coll));
      coll = std::move(o);
      break;
    }
    case 10: {
      C o;
      if (c.flip()) o.push_back(V(1));
      o = std::move(*coll);
      *coll = std::move(o);
      break;
    }
    case 11: {
      m = genVec();
      auto t = m;
      coll = std::make_unique<C>(std::move(t));
      break;
    }
    case 12: {
      m = genVec();
      switch (c.draw(4)) {
      case 0:
        coll = std::make_unique<C>(C::from(m));
        break;
      case 1: {
        std::list<V> l(m.begin(), m.end());
        coll = std::make_unique<C>(C::from(l));
        break;
      }
      case 2: {
        auto t = m;
        coll = std::make_unique<C>(C::from(std::move(t)));
        break;
      }
      default:
        coll = std::make_unique<C>(C::from(m | std::views::reverse));
        std::reverse(m.begin(), m.end());
      }
      break;
    }
    case 13: { // from another type that converts
      std::vector<short> v;
      for (size_t i = 0, k = c.count(8); i < k; ++i) v.push_back(short(c.below(100)));
      coll = std::make_unique<C>(C::from(v));
      m.assign(v.begin(), v.end());
      break;
    }
    case 14:
      std::sort(coll->begin(), coll->end(), [](V a, V b) { return std::memcmp(&a, &b, sizeof a) < 0; });
      std::sort(m.begin(), m.end(), [](V a, V b) { return std::memcmp(&a, &b, sizeof a) < 0; });
      break;
    case 15: {
      const uint32_t id = uint32_t(c.bits(4));
      coll->setID(id);
      REQUIRE(coll->getID() == id, "ID after setID");
      REQUIRE(coll->hasID() == (id != uint32_t(-1) && id != uint32_t(-2)), "hasID");
      break;
    }
    case 16: { // preparing changes nothing and gives the content
      auto w = write<V>(c, *coll);
      sameRange(w, m, "write buffers");
      break;
    }
    default: { // through storage and back
      const std::string nm = "ud" + c.ident(3);
      podio::Frame f;
      const bool byMove = c.flip();
      if (byMove)
        f.put(std::move(*coll), nm);
      else
        f.put(std::unique_ptr<podio::CollectionBase>(std::move(coll)), nm);
      const auto& in = f.get<C>(nm);
      sameRange(in, m, "in a frame");
      auto* wc = const_cast<podio::CollectionBase*>(f.getCollectionForWrite(nm));
      REQUIRE(wc, "cannot be obtained for writing");
      Data d;
      auto idt = f.getCollectionIDTableForWrite();
      d.ids = idt.ids();
      d.names = idt.names();
      d.buf = podio::CollectionBufferFactory::instance().createBuffers(std::string(wc->getTypeName()), wc->getSchemaVersion(), false);
      REQUIRE(d.buf.has_value(), "no buffers can be created");
      *d.buf->template dataAsVector<V>() = write<V>(c, *wc);
      podio::Frame r(std::make_unique<Data>(std::move(d)));
      const auto& back = r.get<C>(nm);
      sameRange(back, m, "read back");
      check(const_cast<C&>(back), m);
      REQUIRE(back.getID() == in.getID() && r.getName(back) == nm, "identity of collection that was read");
      REQUIRE(f.get(nm)->size() == m.size(), "the stored collection changed");
      coll = std::make_unique<C>(C::from(back));
      c.label("stored and read back");
      break;
    }
    }
    ++changes;
    check(*coll, m);
  }
  kinds = ops.size();
  if (m.size() >= 2 && kinds >= 3) c.nontrivial();
}
} // namespace

PBT_PROP_NOLEAK(user_data_behaves_like_a_vector) {
  switch (c.draw(10)) {
  case 0:
    return run<float>(c);
  case 1:
    return run<double>(c);
  case 2:
    return run<int8_t>(c);
  case 3:
    return run<int16_t>(c);
  case 4:
    return run<int32_t>(c);
  case 5:
    return run<int64_t>(c);
  case 6:
    return run<uint8_t>(c);
  case 7:
    return run<uint16_t>(c);
  case 8:
    return run<uint32_t>(c);
  default:
    return run<uint64_t>(c);
  }
}
