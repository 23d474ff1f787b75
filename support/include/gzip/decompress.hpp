// Stand-in for mapbox gzip-hpp (not installed here): same API, over zlib.
#ifndef VERIF_STANDIN_GZIP_DECOMPRESS_HPP
#define VERIF_STANDIN_GZIP_DECOMPRESS_HPP

#include <zlib.h>

#include <cstddef>
#include <stdexcept>
#include <string>

namespace gzip {

inline std::string decompress(const char *data, std::size_t size) {
  z_stream s{};
  // 32: detect gzip or zlib headers, as gzip-hpp does.
  if (inflateInit2(&s, 15 + 32) != Z_OK) {
    throw std::runtime_error("inflate init failed");
  }
  std::string out;
  s.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(data));
  s.avail_in = static_cast<unsigned int>(size);
  std::size_t produced = 0;
  do {
    out.resize(produced + 2 * size + 64);
    s.next_out = reinterpret_cast<Bytef *>(&out[0]) + produced;
    s.avail_out = static_cast<unsigned int>(out.size() - produced);
    const std::size_t room = s.avail_out;
    const int rc = inflate(&s, Z_FINISH);
    if (rc != Z_STREAM_END && rc != Z_OK && rc != Z_BUF_ERROR) {
      const std::string message = s.msg ? s.msg : "inflate failed";
      inflateEnd(&s);
      throw std::runtime_error(message);
    }
    produced += room - s.avail_out;
  } while (s.avail_out == 0);
  inflateEnd(&s);
  out.resize(produced);
  return out;
}

} // namespace gzip

#endif
