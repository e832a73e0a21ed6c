#pragma once
#include "definitions.h"
namespace sio {
template <typename T>
constexpr bool is_plain = std::is_trivially_copyable_v<T> && !std::is_pointer_v<T>;

class write_device {
public:
  explicit write_device(buffer::container& out) : m_out(out) {}
  template <typename T>
    requires is_plain<T>
  void data(const T& v) {
    raw(reinterpret_cast<const byte*>(&v), sizeof(T));
  }
  void data(const std::string& s) {
    data(int(s.size()));
    raw(s.data(), s.size());
  }
  template <typename T>
  void data(const std::vector<T>& v) {
    data(int(v.size()));
    for (const auto& x : v) data(x);
  }
  void data(const char* p, std::size_t n) { raw(p, n); }

private:
  void raw(const byte* p, std::size_t n) {
    if (n) m_out.insert(m_out.end(), p, p + n);
  }
  buffer::container& m_out;
};

class read_device {
public:
  explicit read_device(buffer_span s) : m_span(s) {}
  template <typename T>
    requires is_plain<T>
  void data(T& v) {
    raw(reinterpret_cast<byte*>(&v), sizeof(T));
  }
  void data(std::string& s) {
    s.resize(count());
    raw(s.data(), s.size());
  }
  template <typename T>
  void data(std::vector<T>& v) {
    v.clear();
    const auto n = count();
    for (std::size_t i = 0; i < n; ++i) {
      T x{};
      data(x);
      v.push_back(std::move(x));
    }
  }
  void data(char* p, std::size_t n) { raw(p, n); }
  std::size_t left() const { return m_span.size() - m_pos; }

private:
  std::size_t count() {
    int n{};
    data(n);
    if (n < 0 || std::size_t(n) > left()) SIO_THROW(error_code::out_of_range, "reading beyond the end of a block");
    return std::size_t(n);
  }
  void raw(byte* p, std::size_t n) {
    if (n > left()) SIO_THROW(error_code::out_of_range, "reading beyond the end of a block");
    if (n) std::memcpy(p, m_span.data() + m_pos, n);
    m_pos += n;
  }
  buffer_span m_span;
  std::size_t m_pos{0};
};
} // namespace sio
