// Stand-in for mapbox gzip-hpp (not installed here): same API, over zlib.
#ifndef VERIF_STANDIN_GZIP_COMPRESS_HPP
#define VERIF_STANDIN_GZIP_COMPRESS_HPP

#include <zlib.h>

#include <cstddef>
#include <stdexcept>
#include <string>

namespace gzip {

inline std::string compress(const char *data, std::size_t size,
                            int level = Z_DEFAULT_COMPRESSION) {
  z_stream s{};
  if (deflateInit2(&s, level, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY) !=
      Z_OK) {
    throw std::runtime_error("deflate init failed");
  }
  std::string out;
  out.resize(deflateBound(&s, size) + 64);
  s.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(data));
  s.avail_in = static_cast<unsigned int>(size);
  s.next_out = reinterpret_cast<Bytef *>(&out[0]);
  s.avail_out = static_cast<unsigned int>(out.size());
  const int rc = deflate(&s, Z_FINISH);
  const std::size_t produced = s.total_out;
  deflateEnd(&s);
  if (rc != Z_STREAM_END) {
    throw std::runtime_error("deflate failed");
  }
  out.resize(produced);
  return out;
}

} // namespace gzip

#endif
