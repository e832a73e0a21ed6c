// A small stand-in for the SIO library (which is not installed here): the parts of its interface that podio uses, with the semantics
// SIO documents - records of named, versioned blocks in binary streams. Everything that SIO would leave undefined is checked.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace sio {
using byte = char;
using version_type = uint32_t;
using options_type = uint32_t;
using ifstream = std::ifstream;
using ofstream = std::ofstream;
constexpr std::size_t kbyte = 1024;
constexpr std::size_t mbyte = 1024 * kbyte;
constexpr std::size_t max_record_info_len = 256;

enum class error_code { no_error, not_open, bad_state, io_failure, out_of_range, no_marker, invalid_argument, compress_error };
class exception : public std::runtime_error {
public:
  exception(error_code c, const std::string& m) : std::runtime_error(m), m_code(c) {}
  error_code code() const { return m_code; }

private:
  error_code m_code;
};
#define SIO_THROW(code, message) throw sio::exception(code, message)

class buffer_span {
public:
  buffer_span() = default;
  buffer_span(const byte* b, std::size_t n) : m_begin(b), m_size(n) {}
  const byte* data() const { return m_begin; }
  std::size_t size() const { return m_size; }

private:
  const byte* m_begin{nullptr};
  std::size_t m_size{0};
};

class buffer {
public:
  using container = std::vector<byte>;
  explicit buffer(std::size_t n) : m_bytes(n) {}
  explicit buffer(container&& c) : m_bytes(std::move(c)) {}
  buffer(const buffer&) = delete;
  buffer& operator=(const buffer&) = delete;
  buffer(buffer&&) = default;
  buffer& operator=(buffer&&) = default;
  byte* data() { return m_bytes.data(); }
  const byte* data() const { return m_bytes.data(); }
  std::size_t size() const { return m_bytes.size(); }
  void resize(std::size_t n) { m_bytes.resize(n); }
  buffer_span span() const { return {m_bytes.data(), m_bytes.size()}; }
  buffer_span span(std::size_t start, std::size_t count) const {
    if (start > size() || count > size() - start) SIO_THROW(error_code::out_of_range, "buffer span out of range");
    return {m_bytes.data() + start, count};
  }

private:
  container m_bytes;
};

class block;
using block_list = std::vector<std::shared_ptr<block>>;
class read_device;
class write_device;

struct record_info {
  ifstream::pos_type _file_start{0};
  ifstream::pos_type _file_end{0};
  options_type _options{0};
  unsigned _header_length{0};
  unsigned _data_length{0};
  unsigned _uncompressed_length{0};
  std::string _name;
};
} // namespace sio
