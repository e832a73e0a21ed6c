// Implements TypeOps for one generated datatype (CRTP: D supplies the member specific functions)
#pragma once
#include "erased.h"
#include "podio/CollectionBuffers.h"
#include "podio/Frame.h"
#include <algorithm>
#include <bit>
#include <iterator>
#ifdef PODIO_JSON_OUTPUT
  #include <nlohmann/json.hpp>
#endif
#include <ranges>
#include <sstream>
#include <type_traits>

namespace er {
template <typename T>
u64 toBits(const T& v) {
  if constexpr (std::is_same_v<T, bool>) {
    return v ? 1 : 0;
  } else {
    u64 r = 0;
    std::memcpy(&r, &v, sizeof(T));
    return r;
  }
}
template <typename T>
T fromBits(u64 b) {
  if constexpr (std::is_same_v<T, bool>) {
    return (b & 1) != 0;
  } else {
    T v;
    std::memcpy(&v, &b, sizeof(T));
    return v;
  }
}

template <typename R, typename It>
size_t rangeLen(const R& r, It b, It e) {
  size_t n = 0;
  for (const auto& x : r) {
    (void)x;
    ++n;
  }
  if (n != r.size() || r.empty() != (n == 0) || size_t(e - b) != n || r.begin() != b || r.end() != e)
    return size_t(-1);
  return n;
}

template <typename D, typename X, typename M, typename C>
struct OpsBase : TypeOps {
  static const X& x(const Handle& h) { return h.as<X>(); }
  static const M& m(const Handle& h) { return h.as<M>(); }
  static M& m(Handle& h) {
    if (!h.mut()) bad();
    return h.as<M>();
  }
  static C& c(Coll& cc) { return static_cast<C&>(cc); }
  static const C& c(const Coll& cc) { return static_cast<const C&>(cc); }
  Handle hx(X v) const { return Handle::make<X>(this->index, false, std::move(v)); }
  Handle hm(M v) const { return Handle::make<M>(this->index, true, std::move(v)); }

  Handle newMutable() const override { return hm(M{}); }
  Handle newImmutable() const override { return hx(X{}); }
  Handle newInit(bool mut, const std::vector<u64>& l) const override {
    return mut ? hm(D::template make<M>(l)) : hx(D::template make<X>(l));
  }
  Handle makeEmpty() const override { return hx(X::makeEmpty()); }
  Handle toImmutable(const Handle& h) const override { return h.mut() ? hx(X(m(h))) : hx(x(h)); }
  Handle clone(const Handle& h, int rel) const override {
    if (h.mut()) return hm(rel == 2 ? m(h).clone() : m(h).clone(rel == 1));
    return hm(rel == 2 ? x(h).clone() : x(h).clone(rel == 1));
  }
  void assign(Handle& dst, const Handle& src, bool move) const override {
    if (dst.mut()) {
      if (!src.mut()) bad();
      if (move) {
        M t(m(src));
        m(dst) = std::move(t);
      } else
        m(dst) = m(src);
    } else if (src.mut()) {
      dst.as<X>() = m(src);
    } else if (move) {
      X t(x(src));
      dst.as<X>() = std::move(t);
    } else
      dst.as<X>() = x(src);
  }
  void swapHandles(Handle& a, Handle& b) const override {
    using std::swap;
    if (a.mut() != b.mut()) bad();
    if (a.mut())
      swap(m(a), m(b));
    else
      swap(a.as<X>(), b.as<X>());
  }
  bool available(const Handle& h) const override { return h.mut() ? m(h).isAvailable() : x(h).isAvailable(); }
  void unlink(Handle& h) const override {
    if (h.mut())
      m(h).unlink();
    else
      h.as<X>().unlink();
  }
  podio::ObjectID id(const Handle& h, int v) const override {
    if (v % 2) return h.mut() ? m(h).getObjectID() : x(h).getObjectID();
    return h.mut() ? m(h).id() : x(h).id();
  }
#define ER_DISPATCH(fn, h, ...) ((h).mut() ? D::fn(m(h), __VA_ARGS__) : D::fn(x(h), __VA_ARGS__))
  u64 leaf(const Handle& h, int l, int v) const override { return ER_DISPATCH(lget, h, l, v); }
  void setLeaf(Handle& h, int l, int v, u64 b) const override { D::lset(m(h), l, v, b); }
  size_t vecSize(const Handle& h, int v) const override { return ER_DISPATCH(vsize, h, v); }
  size_t vecRangeLen(const Handle& h, int v) const override { return ER_DISPATCH(vrange, h, v); }
  std::vector<u64> vecGet(const Handle& h, int v, size_t k, int var) const override {
    return ER_DISPATCH(vget, h, v, k, var);
  }
  void vecAdd(Handle& h, int v, const std::vector<u64>& b) const override { D::vadd(m(h), v, b); }
  Handle one(const Handle& h, int r) const override { return ER_DISPATCH(oget, h, r); }
  void setOne(Handle& h, int r, const Handle& t) const override { D::oset(m(h), r, t); }
  size_t manySize(const Handle& h, int r) const override { return ER_DISPATCH(msize, h, r); }
  size_t manyRangeLen(const Handle& h, int r) const override { return ER_DISPATCH(mrange, h, r); }
  Handle manyGet(const Handle& h, int r, size_t k, int var) const override { return ER_DISPATCH(mget, h, r, k, var); }
  void manyAdd(Handle& h, int r, const Handle& t) const override { D::madd(m(h), r, t); }
  void outOfBounds(const Handle& h, int w, int r, size_t k) const override { ER_DISPATCH(oob, h, w, r, k); }
#define ER_CMP(op)                                                                                                     \
  (a.mut() ? (b.mut() ? m(a) op m(b) : m(a) op x(b)) : (b.mut() ? x(a) op m(b) : x(a) op x(b)))
  bool eq(const Handle& a, const Handle& b) const override { return ER_CMP(==); }
  bool ne(const Handle& a, const Handle& b) const override { return ER_CMP(!=); }
  int lessSupported(const Handle& a, const Handle& b) const override { return a.mut() == b.mut(); }
  bool less(const Handle& a, const Handle& b) const override {
    if (a.mut() != b.mut()) bad();
    return a.mut() ? m(a) < m(b) : x(a) < x(b);
  }
  size_t hash(const Handle& h) const override { return h.mut() ? std::hash<M>{}(m(h)) : std::hash<X>{}(x(h)); }
  void print(std::ostream& o, const Handle& h) const override {
    if (h.mut())
      o << m(h);
    else
      o << x(h);
  }
  std::string json(const Handle& h) const override {
#ifdef PODIO_JSON_OUTPUT
    nlohmann::json j;
    if (!h.mut()) {
      to_json(j, x(h));
    } else if constexpr (requires(const M& v) { to_json(j, v); }) {
      to_json(j, m(h));
    } else {
      to_json(j, X(m(h)));
    }
    return j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
#else
    (void)h;
    bad();
#endif
  }

  CollPtr newColl() const override { return std::make_unique<C>(); }
  CollPtr moveConstruct(Coll& s) const override { return std::make_unique<C>(std::move(c(s))); }
  void moveAssign(Coll& d, Coll& s) const override { c(d) = std::move(c(s)); }
  Handle create(Coll& cc) const override { return hm(c(cc).create()); }
  Handle createArgs(Coll& cc, const std::vector<u64>& l) const override { return hm(D::createArgs(c(cc), l)); }
  void push(Coll& cc, const Handle& h) const override {
    if (h.mut())
      c(cc).push_back(m(h));
    else
      c(cc).push_back(x(h));
  }
  Handle get(Coll& cc, size_t i, int v) const override {
    const C& k = c(cc);
    switch (v % 4) {
    case 0:
      return hx(k[i]);
    case 1:
      return hx(k.at(i));
    case 2:
      return hm(c(cc)[i]);
    default:
      return hm(c(cc).at(i));
    }
  }
  std::vector<Handle> iterate(Coll& cc, int v) const override {
    C& k = c(cc);
    const C& kc = k;
    std::vector<Handle> r;
    switch (v % nIter) {
    case 0:
      for (auto e : kc) r.push_back(hx(e));
      break;
    case 1:
      for (auto e : k) r.push_back(hm(e));
      break;
    case 2:
      for (auto it = k.cbegin(); it != k.cend(); ++it) r.push_back(hx(*it));
      break;
    case 3:
      for (auto it = kc.begin(), e = kc.end(); it != e;) r.push_back(hx(*it++));
      break;
    case 4:
      std::for_each(k.begin(), k.end(), [&](auto e) { r.push_back(hm(e)); });
      break;
    case 5:
      for (auto it = kc.rbegin(); it != kc.rend(); ++it) r.insert(r.begin(), hx(*it));
      break;
    case 6:
      for (auto it = k.rbegin(); it != k.rend(); ++it) r.insert(r.begin(), hm(*it));
      break;
    default:
      for (auto it = k.crbegin(); it != k.crend(); ++it) r.insert(r.begin(), hx(*it));
      break;
    }
    return r;
  }
  std::vector<u64> colGet(const Coll& cc, int l, size_t n) const override { return D::colGet(c(cc), l, n); }
  CollPtr from(const std::vector<Handle>& hs, bool mut, int variant) const override {
    if (mut) {
      std::vector<M> v;
      for (const auto& h : hs) v.push_back(m(h));
      if (variant % 3 == 0) return std::make_unique<C>(C::from(v));
      if (variant % 3 == 1) return std::make_unique<C>(C::from(v | std::views::filter([](const auto&) { return true; })));
      return std::make_unique<C>(C::from(std::move(v)));
    }
    std::vector<X> v;
    for (const auto& h : hs) v.push_back(h.mut() ? X(m(h)) : x(h));
    if (variant % 3 == 0) return std::make_unique<C>(C::from(v));
    if (variant % 3 == 1) return std::make_unique<C>(C::from(v | std::views::filter([](const auto&) { return true; })));
    return std::make_unique<C>(C::from(std::move(v)));
  }
  void printColl(std::ostream& o, const Coll& cc, int v) const override {
    if (v % 3 == 0)
      o << c(cc);
    else
      c(cc).print(o, v % 3 == 1);
  }
  std::string jsonColl(const Coll& cc) const override {
#ifdef PODIO_JSON_OUTPUT
    nlohmann::json j;
    to_json(j, c(cc));
    return j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
#else
    (void)cc;
    bad();
#endif
  }
  size_t maxSize(const Coll& cc) const override { return c(cc).max_size(); }
  std::string typeNames(int w) const override {
    switch (w) {
    case 0:
      return std::string(X::typeName);
    case 1:
      return std::string(C::typeName);
    case 2:
      return std::string(C::valueTypeName);
    default:
      return std::string(C::dataTypeName);
    }
  }
  const Coll* putTyped(podio::Frame& f, Coll& cc, const std::string& n) const override {
    const C& r = f.put(std::move(c(cc)), n);
    return &r;
  }
  const Coll* getTyped(const podio::Frame& f, const std::string& n) const override {
    const C& r = f.get<C>(n);
    return &r;
  }
  void copyData(Coll& f, podio::CollectionReadBuffers& to) const override {
    auto b = f.getBuffers();
    if (!f.isSubsetCollection()) {
      auto* src = b.template dataAsVector<typename D::DataT>();
      if (!src) throw std::runtime_error("no data buffer");
      // the other way the data can be reached, used by ROOT
      if (!b.data || static_cast<std::unique_ptr<std::vector<typename D::DataT>>*>(b.data)->get() != src)
        throw std::runtime_error("write buffers: data and vecPtr disagree");
      copyParts(*src, b.references, b.vectorMembers, true, to);
    } else {
      if (b.data) throw std::runtime_error("write buffers of a subset collection have data");
      copyRefs(b.references, to);
    }
  }
  void dup(podio::CollectionReadBuffers& f, podio::CollectionReadBuffers& to) const override {
    if (f.data)
      copyParts(*f.template dataAsVector<typename D::DataT>(), f.references, f.vectorMembers, false, to);
    else
      copyRefs(f.references, to);
  }
  template <typename V>
  void copyParts(const V& src, podio::CollRefCollection* refs, podio::VectorMembersInfo* vecMem, bool indirect, podio::CollectionReadBuffers& to) const {
    auto* dst = to.template dataAsVector<typename D::DataT>();
    if (!dst) throw std::runtime_error("no data buffer to read into");
    *dst = src;
    const size_t nv = vecMem ? vecMem->size() : 0;
    if (nv != this->vecs.size()) throw std::runtime_error("wrong number of vector members");
    if (nv) {
      if (!to.vectorMembers || to.vectorMembers->size() != nv) throw std::runtime_error("read buffers: wrong number of vector members");
      D::copyVecs(*vecMem, *to.vectorMembers, indirect);
    }
    copyRefs(refs, to);
  }
  void copyRefs(podio::CollRefCollection* refs, podio::CollectionReadBuffers& to) const {
    const size_t nr = refs ? refs->size() : 0;
    const size_t nt = to.references ? to.references->size() : 0;
    if (nr != nt)
      throw std::runtime_error("read and write buffers disagree on the number of reference vectors: " + std::to_string(nt) + " and " + std::to_string(nr));
    for (size_t i = 0; i < nr; ++i) *(*to.references)[i] = *(*refs)[i];
  }
  std::string bufferBytes(Coll& f) const override {
    std::ostringstream o;
    auto b = f.getBuffers();
    if (!f.isSubsetCollection()) {
      auto* src = b.template dataAsVector<typename D::DataT>();
      o << "n=" << (src ? long(src->size()) : -1);
      if (src)
        for (auto& e : *src) D::relRanges(o, e);
      o << " vecs=";
      if (b.vectorMembers) D::vecSizes(o, *b.vectorMembers);
    }
    o << " refs=";
    if (b.references)
      for (auto& v : *b.references) {
        o << "[";
        for (auto& x : *v) o << x.index << ":" << x.collectionID << " ";
        o << "]";
      }
    return o.str();
  }

  template <typename It, typename CC>
  std::string laws(CC& k, const std::vector<long>& script) const {
    // positions are tracked in parallel with the iterator; every law is checked at every step
    const long n = long(k.size());
    It b = k.begin(), e = k.end();
    if (e - b != n) return "end()-begin() != size()";
    std::vector<typename std::iterator_traits<It>::value_type> ref;
    for (long i = 0; i < n; ++i) ref.push_back(k[size_t(i)]);
    It it = b;
    long p = 0;
    // operator-> may keep something in the iterator: it is used on copies and on the iterators themselves
    auto arrow = [&](It& t, long q) -> std::string {
      if (!(t->id() == ref[size_t(q)].id())) return "it->id() is wrong";
      if (!(*t.operator->() == ref[size_t(q)])) return "*it.operator->() is wrong";
      if (!(t->isAvailable())) return "it->isAvailable() is wrong";
      return "";
    };
    auto same = [&](const It& a, long q) -> std::string {
      if (a - b != q) return "it - begin() is wrong";
      if (b - a != -q) return "begin() - it is wrong";
      if (e - a != n - q) return "end() - it is wrong";
      if ((a == e) != (q == n) || (a != e) != (q != n)) return "it == end() is wrong";
      if ((a == b) != (q == 0)) return "it == begin() is wrong";
      if ((a < e) != (q < n) || (a <= b) != (q <= 0) || (a > b) != (q > 0) || !(a >= b)) return "ordering is wrong";
      if (q < n) {
        if (!(*a == ref[size_t(q)])) return "*it is wrong";
        It t = a;
        if (auto s = arrow(t, q); !s.empty()) return s;
      }
      for (long j = 0; j < n; ++j)
        if (!(a[j - q] == ref[size_t(j)])) return "it[j] is wrong";
      return "";
    };
    if (auto s = same(it, 0); !s.empty()) return s;
    for (size_t i = 0; i + 1 < script.size(); i += 2) {
      const long op = script[i] % 8;
      // target position in [0, n]
      const long tgt = script[i + 1] % (n + 1);
      switch (op) {
      case 0:
        if (p < n) {
          It& r = ++it;
          ++p;
          if (&r != &it) return "++it does not return itself";
        }
        break;
      case 1:
        if (p < n) {
          It o = it++;
          if (auto s = same(o, p); !s.empty()) return "it++ result: " + s;
          ++p;
        }
        break;
      case 2:
        if (p > 0) {
          It& r = --it;
          --p;
          if (&r != &it) return "--it does not return itself";
        }
        break;
      case 3:
        if (p > 0) {
          It o = it--;
          if (auto s = same(o, p); !s.empty()) return "it-- result: " + s;
          --p;
        }
        break;
      case 4:
        it += tgt - p;
        p = tgt;
        break;
      case 5:
        it -= p - tgt;
        p = tgt;
        break;
      case 6: {
        It x1 = it + (tgt - p);
        It x2 = (tgt - p) + it;
        if (auto s = same(it, p); !s.empty()) return "it + n modified it: " + s;
        if (!(x1 == x2)) return "it + n != n + it";
        it = x1;
        p = tgt;
        break;
      }
      default: {
        It x1 = it - (p - tgt);
        if (auto s = same(it, p); !s.empty()) return "it - n modified it: " + s;
        if ((x1 - it) != tgt - p) return "(it - n) - it is wrong";
        if ((x1 < it) != (tgt < p) || (x1 > it) != (tgt > p) || (x1 <= it) != (tgt <= p) || (x1 >= it) != (tgt >= p))
          return "ordering of two iterators is wrong";
        it = x1;
        p = tgt;
        break;
      }
      }
      if (auto s = same(it, p); !s.empty()) return s;
      if (p < n && script[i + 1] % 3)
        if (auto s = arrow(it, p); !s.empty()) return "after a step, " + s;
    }
    // algorithms on top of the iterators
    if (std::distance(b, e) != n) return "std::distance is wrong";
    if (std::ranges::distance(k) != n) return "std::ranges::distance is wrong";
    long cnt = std::ranges::count_if(k, [](const auto& o) { return o.isAvailable(); });
    if (cnt != n) return "std::ranges::count_if is wrong";
    if (n > 0) {
      const size_t j = size_t(script.empty() ? 0 : script[0] % n);
      auto f = std::find(b, e, ref[j]);
      // the first element that compares equal (subset collections may hold duplicates)
      long first = 0;
      while (!(ref[size_t(first)] == ref[j])) ++first;
      if (f - b != first) return "std::find is wrong";
      auto rf = std::ranges::find(k, ref[j]);
      if (rf - k.begin() != first) return "std::ranges::find is wrong";
      long pos = long(j);
      for (auto o : std::views::drop(k, long(j))) {
        if (!(o == ref[size_t(pos)])) return "std::views::drop is wrong";
        ++pos;
      }
      if (pos != n) return "std::views::drop yields the wrong number of elements";
      // reverse iteration
      pos = n;
      for (auto r = k.rbegin(); r != k.rend(); ++r)
        if (!(*r == ref[size_t(--pos)])) return "reverse iteration is wrong";
      if (pos != 0) return "reverse iteration has the wrong length";
      auto rv = k | std::views::reverse;
      pos = n;
      for (auto o : rv)
        if (!(o == ref[size_t(--pos)])) return "std::views::reverse is wrong";
    }
    return "";
  }
  std::string iterLaws(Coll& cc, const std::vector<long>& script) const override {
    C& k = c(cc);
    const C& kc = k;
    if (auto s = laws<typename C::iterator>(k, script); !s.empty()) return "iterator: " + s;
    if (auto s = laws<typename C::const_iterator>(kc, script); !s.empty()) return "const_iterator: " + s;
    return "";
  }
};
} // namespace er
