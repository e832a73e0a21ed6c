// Type-erased view of generated datatypes: property code is written once against this
#pragma once
#include "podio/CollectionBase.h"
#include "podio/ObjectID.h"
#include <cstdint>
#include <cstring>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>

namespace podio {
class Frame;
}
namespace er {
using u64 = std::uint64_t;
enum class LK { Bool, Char, I16, I32, I64, U16, U32, U64, F32, F64 };
inline int widthOf(LK k) {
  switch (k) {
  case LK::Bool:
  case LK::Char:
    return 1;
  case LK::I16:
  case LK::U16:
    return 2;
  case LK::I32:
  case LK::U32:
  case LK::F32:
    return 4;
  default:
    return 8;
  }
}
struct LeafInfo {
  const char* path;
  LK kind;
  int member;
  int nGet, nSet;
  u64 def; // bits of the declared default
};
struct VecInfo {
  const char* name;
  std::vector<LeafInfo> leaves;
};
struct RelInfo {
  const char* name;
  const char* target;
  bool isInterface;
  std::vector<int> targets; // type indices
};

struct Bad : std::logic_error {
  Bad() : std::logic_error("harness: bad erased operation") {}
};
[[noreturn]] inline void bad() { throw Bad(); }

/// A value of some generated handle type (immutable or mutable)
class Handle {
  struct Base {
    virtual ~Base() = default;
    virtual std::unique_ptr<Base> copy() const = 0;
  };
  template <typename T>
  struct Holder final : Base {
    T v;
    explicit Holder(T x) : v(std::move(x)) {}
    std::unique_ptr<Base> copy() const override { return std::make_unique<Holder<T>>(v); }
  };
  std::unique_ptr<Base> m_p;
  int m_type{-1};
  bool m_mut{false};

public:
  Handle() = default;
  Handle(const Handle& o) : m_p(o.m_p ? o.m_p->copy() : nullptr), m_type(o.m_type), m_mut(o.m_mut) {}
  Handle(Handle&&) = default;
  Handle& operator=(const Handle& o) {
    Handle t(o);
    *this = std::move(t);
    return *this;
  }
  Handle& operator=(Handle&&) = default;
  template <typename T>
  static Handle make(int type, bool mut, T v) {
    Handle h;
    h.m_p = std::make_unique<Holder<T>>(std::move(v));
    h.m_type = type;
    h.m_mut = mut;
    return h;
  }
  explicit operator bool() const { return m_p != nullptr; }
  int type() const { return m_type; }
  bool mut() const { return m_mut; }
  template <typename T>
  T& as() { return static_cast<Holder<T>*>(m_p.get())->v; }
  template <typename T>
  const T& as() const { return static_cast<const Holder<T>*>(m_p.get())->v; }
};

using Coll = podio::CollectionBase;
using CollPtr = std::unique_ptr<podio::CollectionBase>;

struct TypeOps {
  int index{};
  const char* name{};
  const char* package{};
  bool isLink{};
  int nMembers{};
  std::vector<const char*> memberNames;
  std::vector<LeafInfo> leaves;
  std::vector<VecInfo> vecs;
  std::vector<RelInfo> ones, manys;
  virtual ~TypeOps() = default;

  // --- object level
  virtual Handle newMutable() const = 0;
  virtual Handle newImmutable() const = 0;
  virtual Handle newInit(bool mut, const std::vector<u64>& leaves) const = 0;
  virtual Handle makeEmpty() const = 0;
  virtual Handle toImmutable(const Handle&) const = 0;
  virtual Handle clone(const Handle&, int withRelations /* 0 no, 1 yes, 2 default argument */) const = 0;
  virtual void assign(Handle& dst, const Handle& src, bool move) const = 0;
  virtual void swapHandles(Handle& a, Handle& b) const = 0;
  virtual bool available(const Handle&) const = 0;
  virtual void unlink(Handle&) const = 0;
  virtual podio::ObjectID id(const Handle&, int variant) const = 0;
  virtual u64 leaf(const Handle&, int leaf, int variant) const = 0;
  virtual void setLeaf(Handle&, int leaf, int variant, u64 bits) const = 0;
  virtual size_t vecSize(const Handle&, int v) const = 0;
  virtual size_t vecRangeLen(const Handle&, int v) const = 0;
  virtual std::vector<u64> vecGet(const Handle&, int v, size_t k, int variant) const = 0;
  virtual void vecAdd(Handle&, int v, const std::vector<u64>&) const = 0;
  virtual Handle one(const Handle&, int r) const = 0;
  virtual void setOne(Handle&, int r, const Handle& target) const = 0;
  virtual size_t manySize(const Handle&, int r) const = 0;
  virtual size_t manyRangeLen(const Handle&, int r) const = 0;
  virtual Handle manyGet(const Handle&, int r, size_t k, int variant) const = 0;
  virtual void manyAdd(Handle&, int r, const Handle& target) const = 0;
  /// access element k out of bounds: what 0 vec(k), 1 many(k), 2 vec range.at(k), 3 many range.at(k)
  virtual void outOfBounds(const Handle&, int what, int r, size_t k) const = 0;
  virtual bool eq(const Handle& a, const Handle& b) const = 0;
  virtual bool ne(const Handle& a, const Handle& b) const = 0;
  virtual int lessSupported(const Handle& a, const Handle& b) const = 0; // both mutable or both immutable
  virtual bool less(const Handle& a, const Handle& b) const = 0;
  virtual size_t hash(const Handle&) const = 0;
  virtual void print(std::ostream&, const Handle&) const = 0;
  virtual std::string json(const Handle&) const = 0;

  // --- collection level
  virtual CollPtr newColl() const = 0;
  virtual CollPtr moveConstruct(Coll&) const = 0;
  virtual void moveAssign(Coll& dst, Coll& src) const = 0;
  virtual Handle create(Coll&) const = 0;
  virtual Handle createArgs(Coll&, const std::vector<u64>&) const = 0;
  virtual void push(Coll&, const Handle&) const = 0;
  /// 0 const [], 1 const at, 2 mutable [], 3 mutable at
  virtual Handle get(Coll&, size_t i, int variant) const = 0;
  /// all elements by iteration; 0 range-for const, 1 range-for mutable, 2 cbegin/cend, 3 iter++ const, 4 std::for_each
  /// mutable; 5 reverse const, 6 reverse mutable, 7 crbegin (reverse order)
  static constexpr int nIter = 8;
  virtual std::vector<Handle> iterate(Coll&, int variant) const = 0;
  virtual std::vector<u64> colGet(const Coll&, int leaf, size_t n) const = 0;
  /// from(range): mut: vector of Mutable handles; otherwise vector of immutable ones
  virtual CollPtr from(const std::vector<Handle>&, bool mut, int variant) const = 0;
  virtual void printColl(std::ostream&, const Coll&, int variant) const = 0;
  virtual std::string jsonColl(const Coll&) const = 0;
  virtual size_t maxSize(const Coll&) const = 0;
  virtual std::string typeNames(int which) const = 0; // 0 X::typeName 1 coll typeName 2 valueTypeName 3 dataTypeName

  // --- frames
  virtual const Coll* putTyped(podio::Frame&, Coll&, const std::string&) const = 0;
  virtual const Coll* getTyped(const podio::Frame&, const std::string&) const = 0;

  // --- persistence
  /// copy the contents of write buffers into read buffers the way a backend does
  virtual void copyData(Coll& from, podio::CollectionReadBuffers& to) const = 0;
  /// copy read buffers into others of the same type
  virtual void dup(podio::CollectionReadBuffers& from, podio::CollectionReadBuffers& to) const = 0;
  /// bytes of the data in write buffers, to compare them
  virtual std::string bufferBytes(Coll&) const = 0;

  // --- iterator laws, executed on the typed iterators; returns "" or a description of what failed
  virtual std::string iterLaws(Coll&, const std::vector<long>& script) const = 0;
};

const std::vector<std::unique_ptr<TypeOps>>& types();
} // namespace er
