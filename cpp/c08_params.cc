// Generic parameters behave as four independent ordered maps key -> vector<T>
#include "pbt.h"
#include "podio/Frame.h"
#include "podio/GenericParameters.h"
#include <cmath>
#include <cstring>
#include <map>
#include <optional>
#include <thread>

namespace {
template <typename T>
using MapT = std::map<std::string, std::vector<T>>;
struct Model {
  MapT<int> i;
  MapT<float> f;
  MapT<double> d;
  MapT<std::string> s;
  template <typename T>
  MapT<T>& m() {
    if constexpr (std::is_same_v<T, int>) return i;
    else if constexpr (std::is_same_v<T, float>) return f;
    else if constexpr (std::is_same_v<T, double>) return d;
    else return s;
  }
  bool empty() const { return i.empty() && f.empty() && d.empty() && s.empty(); }
  size_t entries() const { return i.size() + f.size() + d.size() + s.size(); }
};
template <typename T>
T value(pbt::Case& c) {
  if constexpr (std::is_same_v<T, std::string>) return c.text(c.chance(1, 20) ? 200 : 12);
  else if constexpr (std::is_same_v<T, int>) return int(unsigned(c.bits(4)));
  else if constexpr (std::is_same_v<T, float>) {
    auto b = std::uint32_t(c.floatBits(4, false));
    float v;
    std::memcpy(&v, &b, 4);
    return v;
  } else {
    auto b = c.floatBits(8, false);
    double v;
    std::memcpy(&v, &b, 8);
    return v;
  }
}
template <typename T>
bool same(const T& a, const T& b) {
  if constexpr (std::is_floating_point_v<T>) {
    return (std::isnan(a) && std::isnan(b)) || std::memcmp(&a, &b, sizeof(T)) == 0;
  } else
    return a == b;
}
template <typename T>
bool same(const std::vector<T>& a, const std::vector<T>& b) {
  if (a.size() != b.size()) return false;
  for (size_t k = 0; k < a.size(); ++k)
    if (!same<T>(a[k], b[k])) return false;
  return true;
}
template <typename T>
const char* tname() {
  if constexpr (std::is_same_v<T, int>) return "int";
  else if constexpr (std::is_same_v<T, float>) return "float";
  else if constexpr (std::is_same_v<T, double>) return "double";
  else return "string";
}

template <typename T, typename P>
void checkKey(P& p, Model& m, const std::string& k) {
  auto& mm = m.m<T>();
  auto it = mm.find(k);
  auto vec = p.template get<std::vector<T>>(k);
  auto one = p.template get<T>(k);
  REQUIRE(p.template getN<T>(k) == (it == mm.end() ? 0 : it->second.size()), tname<T>() << " getN(" << k << ")");
  REQUIRE(vec.has_value() == (it != mm.end()), tname<T>() << " vector parameter '" << k << "' presence");
  if (vec) REQUIRE(same(*vec, it->second), tname<T>() << " vector parameter '" << k << "' value");
  const bool hasOne = it != mm.end() && !it->second.empty();
  REQUIRE(one.has_value() == hasOne, tname<T>() << " scalar parameter '" << k << "' presence");
  if (one) REQUIRE(same(*one, it->second[0]), tname<T>() << " scalar parameter '" << k << "' value");
}
template <typename T, typename P>
void checkType(P& p, Model& m) {
  auto& mm = m.m<T>();
  std::vector<std::string> keys;
  for (auto& [k, v] : mm) keys.push_back(k);
  auto got = p.template getKeys<T>();
  std::sort(got.begin(), got.end());
  REQUIRE(got == keys, tname<T>() << " getKeys");
  auto [ks, vs] = p.template getKeysAndValues<T>();
  REQUIRE(ks.size() == vs.size() && ks.size() == mm.size(), tname<T>() << " getKeysAndValues sizes");
  for (size_t i = 0; i < ks.size(); ++i) {
    REQUIRE(mm.count(ks[i]), tname<T>() << " getKeysAndValues yields unknown key");
    REQUIRE(same(vs[i], mm[ks[i]]), tname<T>() << " getKeysAndValues pairs '" << ks[i] << "' with a wrong value");
  }
  std::set<std::string> uniq(ks.begin(), ks.end());
  REQUIRE(uniq.size() == ks.size(), tname<T>() << " getKeysAndValues repeats a key");
  for (auto& k : keys) checkKey<T>(p, m, k);
}
void checkAll(const podio::GenericParameters& p, Model& m) {
  checkType<int>(p, m);
  checkType<float>(p, m);
  checkType<double>(p, m);
  checkType<std::string>(p, m);
  REQUIRE(p.empty() == m.empty(), "empty()");
}
std::string key(pbt::Case& c, std::vector<std::string>& pool) {
  if (!pool.empty() && !c.chance(1, 4)) return c.pick(pool);
  pool.push_back(c.flip() ? c.ident(4) : c.text(8));
  return pool.back();
}

template <typename T>
void setOp(pbt::Case& c, podio::GenericParameters& p, Model& m, const std::string& k) {
  switch (c.draw(4)) {
  case 0: {
    T v = value<T>(c);
    p.set(k, v);
    m.m<T>()[k] = {v};
    c.log("set<", tname<T>(), ">('", k, "', single)");
    break;
  }
  case 1: {
    std::vector<T> v;
    size_t n = c.some(8);
    for (size_t i = 0; i < n; ++i) v.push_back(value<T>(c));
    p.set(k, v);
    m.m<T>()[k] = v;
    if (v.empty()) c.label("empty vector value");
    c.log("set<", tname<T>(), ">('", k, "', vector of ", n, ")");
    break;
  }
  case 2: {
    T a = value<T>(c), b = value<T>(c), d = value<T>(c);
    p.set(k, {a, b, d});
    m.m<T>()[k] = {a, b, d};
    c.log("set<", tname<T>(), ">('", k, "', {3})");
    break;
  }
  default: {
    if constexpr (std::is_same_v<T, std::string>) {
      std::string v = c.ident(10);
      p.set(k, v.c_str());
      m.s[k] = {v};
      c.log("set('", k, "', const char*)");
    } else {
      T v = value<T>(c);
      const T& ref = v;
      p.set(k, ref);
      m.m<T>()[k] = {v};
    }
  }
  }
}
template <typename F>
auto withType(pbt::Case& c, F&& f) {
  switch (c.draw(4)) {
  case 0:
    return f(int{});
  case 1:
    return f(float{});
  case 2:
    return f(double{});
  default:
    return f(std::string{});
  }
}
} // namespace

PBT_PROP_NOLEAK(parameters_are_typed_maps) {
  podio::GenericParameters p;
  Model m;
  std::vector<std::string> pool;
  std::vector<std::pair<std::unique_ptr<podio::GenericParameters>, Model>> copies;
  const size_t n = 1 + c.below(size_t(c.size()) / 2 + 4);
  bool overwrote = false, crossType = false;
  for (size_t step = 0; step < n; ++step) {
    switch (c.weighted({30, 10, 3, 3, 2, 1})) {
    case 0: {
      auto k = key(c, pool);
      withType(c, [&]<typename T>(T) {
        overwrote |= m.m<T>().count(k) > 0;
        crossType |= (m.i.count(k) + m.f.count(k) + m.d.count(k) + m.s.count(k)) > m.m<T>().count(k);
        setOp<T>(c, p, m, k);
        checkKey<T>(p, m, k);
      });
      break;
    }
    case 1: {
      auto k = key(c, pool);
      checkKey<int>(p, m, k);
      checkKey<float>(p, m, k);
      checkKey<double>(p, m, k);
      checkKey<std::string>(p, m, k);
      break;
    }
    case 2: { // copies are independent snapshots
      copies.emplace_back(std::make_unique<podio::GenericParameters>(p), m);
      c.log("copy");
      c.label("copy");
      break;
    }
    case 3: { // move keeps everything
      if (c.flip()) {
        podio::GenericParameters q(std::move(p));
        checkAll(q, m);
        p = std::move(q);
      } else {
        podio::GenericParameters q;
        q.set("other", 1);
        q = std::move(p);
        checkAll(q, m);
        p = podio::GenericParameters(std::move(q));
      }
      c.log("move");
      c.label("move");
      break;
    }
    case 4: { // what a backend does: take keys and values, load them elsewhere
      podio::GenericParameters q;
      withType(c, [&]<typename T>(T) {
        auto [ks, vs] = p.getKeysAndValues<T>();
        q.loadFrom<T>(ks, vs);
        Model mq;
        mq.m<T>() = m.m<T>();
        checkAll(q, mq);
      });
      c.label("loadFrom");
      break;
    }
    default:
      p.clear();
      m = Model{};
      c.log("clear");
      c.label("clear");
    }
    if (step % 5 == 4) checkAll(p, m);
  }
  checkAll(p, m);
  for (auto& [q, mq] : copies) checkAll(*q, mq);
  if (overwrote) c.label("overwrite");
  if (crossType) c.label("same key, several types");
  if (m.entries() >= 2 && (overwrote || crossType || !copies.empty())) c.nontrivial();
}

PBT_PROP_NOLEAK(frame_parameters_are_typed_maps) {
  podio::Frame f;
  Model m;
  std::vector<std::string> pool;
  const size_t n = 1 + c.below(30);
  for (size_t step = 0; step < n; ++step) {
    auto k = key(c, pool);
    withType(c, [&]<typename T>(T) {
      switch (c.draw(3)) {
      case 0: {
        T v = value<T>(c);
        f.putParameter(k, v);
        m.m<T>()[k] = {v};
        break;
      }
      case 1: {
        std::vector<T> v;
        size_t nn = c.count(5);
        for (size_t i = 0; i < nn; ++i) v.push_back(value<T>(c));
        f.putParameter(k, v);
        m.m<T>()[k] = v;
        break;
      }
      default: {
        T a = value<T>(c), b = value<T>(c);
        f.putParameter(k, {a, b});
        m.m<T>()[k] = {a, b};
      }
      }
      c.log("putParameter<", tname<T>(), ">('", k, "')");
    });
    if (c.chance(1, 6)) {
      f.putParameter(k, "literal");
      m.s[k] = {"literal"};
    }
    if (c.chance(1, 10)) {
      podio::Frame g(std::move(f));
      f = std::move(g);
      c.label("frame moved");
    }
  }
  auto chk = [&]<typename T>(T) {
    auto keys = f.getParameterKeys<T>();
    std::sort(keys.begin(), keys.end());
    std::vector<std::string> exp;
    for (auto& [k, v] : m.m<T>()) exp.push_back(k);
    REQUIRE(keys == exp, tname<T>() << " getParameterKeys");
    for (auto& k : pool) {
      auto it = m.m<T>().find(k);
      auto v = f.getParameter<std::vector<T>>(k);
      REQUIRE(v.has_value() == (it != m.m<T>().end()), "presence of " << k);
      if (v) REQUIRE(same(*v, it->second), "value of " << k);
      auto s = f.getParameter<T>(k);
      REQUIRE(s.has_value() == (it != m.m<T>().end() && !it->second.empty()), "presence of scalar " << k);
      if (s) REQUIRE(same(*s, it->second[0]), "scalar value of " << k);
    }
  };
  chk(int{});
  chk(float{});
  chk(double{});
  chk(std::string{});
  checkAll(f.getParameters(), m);
  if (m.entries() >= 3) c.nontrivial();
}

// every value set by any thread is there afterwards, readers only ever see complete values
template <class T>
static T pv(int v) {
  if constexpr (std::is_same_v<T, std::string>) return "a string that does not fit into a small buffer " + std::to_string(v);
  else return T(v);
}

// what one thread does to the values of one type; keys "k.." are shared, their values have three equal entries, "own.." belong to one thread
template <class T>
static std::string oneStep(podio::GenericParameters& p, int op, const std::string& k, int v, const std::string& own) {
  auto torn = [](const std::vector<T>& x) { return x.size() != 3 || x[0] != x[1] || x[1] != x[2]; };
  switch (op) {
  case 0:
    p.set(k, std::vector<T>(3, pv<T>(v)));
    break;
  case 1: {
    auto x = p.get<std::vector<T>>(k);
    if (x && torn(*x)) return "torn value";
    break;
  }
  case 2:
    p.set<T>(own, pv<T>(v));
    if (auto x = p.get<T>(own); !x || *x != pv<T>(v)) return "a value that was just set is not there";
    break;
  case 3: {
    auto n = p.getN<T>(k);
    if (n != 0 && n != 3) return "getN of a torn value";
    break;
  }
  case 4: {
    auto ks = p.getKeys<T>();
    if (!std::is_sorted(ks.begin(), ks.end()) || std::adjacent_find(ks.begin(), ks.end()) != ks.end()) return "getKeys is not a sorted list of different keys";
    break;
  }
  case 5: {
    auto [ks, vs] = p.getKeysAndValues<T>();
    if (ks.size() != vs.size()) return "getKeysAndValues of different lengths";
    for (size_t i = 0; i < ks.size(); ++i)
      if (ks[i][0] == 'k' ? torn(vs[i]) : vs[i].size() != 1) return "getKeysAndValues gives a torn value";
    break;
  }
  case 6: {
    podio::GenericParameters q(p);
    auto [ks, vs] = q.getKeysAndValues<T>();
    for (size_t i = 0; i < ks.size(); ++i)
      if (ks[i][0] == 'k' ? torn(vs[i]) : vs[i].size() != 1) return "a copy has a torn value";
    break;
  }
  default:
    p.loadFrom<T>(std::vector<std::string>{k, own}, std::vector<std::vector<T>>{std::vector<T>(3, pv<T>(v)), {pv<T>(v)}});
    if (p.getN<T>(k) != 3 || p.getN<T>(own) != 1) return "a value that was just loaded is not there";
  }
  return {};
}

PBT_PROP(parameters_concurrent_use) {
  podio::GenericParameters p;
  const size_t nthreads = 2 + c.below(3);
  const size_t per = 1 + c.below(12);
  const size_t ntypes = 1 + c.below(4);
  std::vector<std::thread> ts;
  std::vector<std::string> errors(nthreads);
  struct Step {
    int type, op;
    std::string k, own;
    int v;
  };
  std::vector<std::vector<Step>> plan(nthreads);
  bool write = false, read = false;
  for (size_t t = 0; t < nthreads; ++t)
    for (size_t i = 0; i < per; ++i) {
      plan[t].push_back({int(c.below(ntypes)), int(c.below(8)), "k" + std::to_string(c.below(4)), "own" + std::to_string(t) + "_" + std::to_string(i), int(c.below(100))});
      const int op = plan[t].back().op;
      (op == 0 || op == 2 || op == 7 ? write : read) = true;
    }
  for (size_t t = 0; t < nthreads; ++t)
    ts.emplace_back([&, t] {
      for (auto& s : plan[t]) {
        std::string e;
        if (s.type == 0) e = oneStep<int>(p, s.op, s.k, s.v, s.own);
        else if (s.type == 1) e = oneStep<float>(p, s.op, s.k, s.v, s.own);
        else if (s.type == 2) e = oneStep<double>(p, s.op, s.k, s.v, s.own);
        else e = oneStep<std::string>(p, s.op, s.k, s.v, s.own);
        if (!e.empty()) errors[t] = e;
      }
    });
  for (auto& t : ts) t.join();
  for (auto& e : errors) REQUIRE(e.empty(), e);
  for (auto& pl : plan)
    for (auto& s : pl)
      if (s.op == 2 || s.op == 7) {
        const size_t n = s.type == 0 ? p.getN<int>(s.own) : s.type == 1 ? p.getN<float>(s.own) : s.type == 2 ? p.getN<double>(s.own) : p.getN<std::string>(s.own);
        REQUIRE(n == 1, "lost parameter " << s.own);
      }
  if (write && read) c.nontrivial();
}
