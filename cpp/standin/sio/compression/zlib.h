// Not zlib, but bytes that differ from the originals, with their number in front
#pragma once
#include "../api.h"
namespace sio {
class zlib_compression {
public:
  void set_level(int) {}
  void compress(const buffer_span& in, buffer& out) {
    out.resize(in.size() + 8);
    const auto n = uint64_t(in.size());
    std::memcpy(out.data(), &n, 8);
    for (std::size_t i = 0; i < in.size(); ++i) out.data()[8 + i] = char(in.data()[i] ^ 0x5a);
  }
  void uncompress(const buffer_span& in, buffer& out) {
    uint64_t n{};
    if (in.size() < 8) SIO_THROW(error_code::compress_error, "not compressed");
    std::memcpy(&n, in.data(), 8);
    if (n != in.size() - 8 || n > out.size()) SIO_THROW(error_code::compress_error, "uncompressing failed");
    out.resize(n);
    for (std::size_t i = 0; i < n; ++i) out.data()[i] = char(in.data()[8 + i] ^ 0x5a);
  }
};
} // namespace sio
