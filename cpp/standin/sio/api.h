#pragma once
#include "block.h"
#include "io_device.h"
namespace sio {
namespace standin {
  constexpr uint32_t record_marker = 0xabadcafe;
  constexpr uint32_t block_marker = 0xdeadbeef;
  inline std::size_t pad(std::size_t n) { return (n + 3) & ~std::size_t(3); }
  inline void check(const std::string& name) {
    if (name.empty()) SIO_THROW(error_code::invalid_argument, "empty name");
    for (char c : name)
      if (!isalnum(static_cast<unsigned char>(c)) && c != '_') SIO_THROW(error_code::invalid_argument, "invalid name '" + name + "'");
  }
  // length of the header, marker, options, length of the data, length of the uncompressed data, length of the name, name
  inline buffer::container header(const record_info& i) {
    buffer::container h;
    write_device d(h);
    d.data(uint32_t(0));
    d.data(record_marker);
    d.data(i._options);
    d.data(uint32_t(i._data_length));
    d.data(uint32_t(i._uncompressed_length));
    d.data(i._name);
    h.resize(pad(h.size()));
    const auto n = uint32_t(h.size());
    std::memcpy(h.data(), &n, sizeof n);
    return h;
  }
} // namespace standin

struct api {
  static record_info write_record(const std::string& name, buffer& out, const block_list& blocks, options_type options) {
    standin::check(name);
    buffer::container body;
    for (const auto& b : blocks) {
      if (!b) SIO_THROW(error_code::invalid_argument, "there is no block");
      standin::check(b->name());
      buffer::container one;
      write_device d(one);
      b->write(d);
      buffer::container whole;
      write_device h(whole);
      h.data(uint32_t(0));
      h.data(standin::block_marker);
      h.data(b->version());
      h.data(b->name());
      h.data(one.data(), one.size());
      const auto n = uint32_t(whole.size());
      whole.resize(standin::pad(whole.size()));
      std::memcpy(whole.data(), &n, sizeof n);
      body.insert(body.end(), whole.begin(), whole.end());
    }
    record_info i;
    i._name = name;
    i._options = options & ~options_type(1);
    i._data_length = i._uncompressed_length = unsigned(body.size());
    const auto h = standin::header(i);
    i._header_length = unsigned(h.size());
    out.resize(h.size() + body.size());
    std::memcpy(out.data(), h.data(), h.size());
    if (!body.empty()) std::memcpy(out.data() + h.size(), body.data(), body.size());
    return i;
  }
  template <typename C>
  static void compress_record(record_info& i, buffer& record, buffer& out, C& compressor) {
    compressor.compress(record.span(i._header_length, i._uncompressed_length), out);
    i._data_length = unsigned(out.size());
    i._options |= 1;
    const auto h = standin::header(i);
    if (h.size() != i._header_length) SIO_THROW(error_code::bad_state, "the header changed its size");
    std::memcpy(record.data(), h.data(), h.size());
  }
  static void write_record(ofstream& s, const buffer_span& record, record_info& i) { write_record(s, record, {}, i); }
  static void write_record(ofstream& s, const buffer_span& header, const buffer_span& data, record_info& i) {
    if (!s.is_open()) SIO_THROW(error_code::not_open, "the stream is not open");
    if (!s.good()) SIO_THROW(error_code::bad_state, "the stream is not good");
    i._file_start = s.tellp();
    s.write(header.data(), std::streamsize(header.size()));
    if (data.size()) s.write(data.data(), std::streamsize(data.size()));
    while (s.tellp() % 4) s.put('\0');
    i._file_end = s.tellp();
    if (!s.good()) SIO_THROW(error_code::io_failure, "writing failed");
  }
  static void read_record_info(ifstream& s, record_info& i, buffer& out) {
    if (!s.is_open()) SIO_THROW(error_code::not_open, "the stream is not open");
    if (!s.good()) SIO_THROW(error_code::bad_state, "the stream is not good");
    i = {};
    i._file_start = s.tellg();
    uint32_t n{};
    s.read(reinterpret_cast<char*>(&n), sizeof n);
    if (!s.good() || n < 24 || n > (1u << 20)) SIO_THROW(error_code::io_failure, "no record at this position");
    if (out.size() < n) out.resize(n);
    std::memcpy(out.data(), &n, sizeof n);
    s.read(out.data() + sizeof n, n - std::streamsize(sizeof n));
    if (!s.good()) SIO_THROW(error_code::io_failure, "the record ends too early");
    read_device d(out.span(0, n));
    uint32_t marker{}, len{}, dl{}, ul{};
    d.data(len);
    d.data(marker);
    if (marker != standin::record_marker) SIO_THROW(error_code::no_marker, "no record at this position");
    d.data(i._options);
    d.data(dl);
    d.data(ul);
    d.data(i._name);
    i._header_length = n;
    i._data_length = dl;
    i._uncompressed_length = ul;
    i._file_end = i._file_start + std::streamoff(n) + std::streamoff(standin::pad(dl));
  }
  static void read_record_data(ifstream& s, const record_info& i, buffer& out) {
    s.seekg(i._file_start + std::streamoff(i._header_length));
    out.resize(i._data_length);
    if (i._data_length) s.read(out.data(), std::streamsize(i._data_length));
    if (!s.good()) SIO_THROW(error_code::io_failure, "the record ends too early");
    s.seekg(i._file_end);
  }
  static void read_blocks(const buffer_span& data, const block_list& blocks) {
    std::size_t pos = 0;
    while (pos < data.size()) {
      read_device h({data.data() + pos, data.size() - pos});
      uint32_t n{}, marker{};
      version_type version{};
      std::string name;
      h.data(n);
      h.data(marker);
      if (marker != standin::block_marker || n > data.size() - pos) SIO_THROW(error_code::no_marker, "no block at this position");
      h.data(version);
      h.data(name);
      const std::size_t start = data.size() - h.left();
      for (const auto& b : blocks) {
        if (!b) SIO_THROW(error_code::invalid_argument, "there is no block");
        if (b->name() != name) continue;
        read_device d({data.data() + start, pos + n - start});
        b->read(d, version);
        break;
      }
      pos += standin::pad(n);
    }
  }
  static void go_to_record(ifstream& s, const std::string& name) {
    buffer b{max_record_info_len};
    while (true) {
      record_info i;
      read_record_info(s, i, b);
      if (i._name == name) {
        s.seekg(i._file_start);
        return;
      }
      s.seekg(i._file_end);
    }
  }
};
} // namespace sio
