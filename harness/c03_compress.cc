// C03: zstd helpers: lossless, and total on damaged input.
#include <albatross/Common>
#include <albatross/src/utils/compress.hpp>
#include "mc.h"
#include <sys/resource.h>

using namespace albatross;

namespace {

void limit_memory() {
  static bool done = false;
  if (!done) {
    struct rlimit r;
    r.rlim_cur = r.rlim_max = 3ull << 30;
    setrlimit(RLIMIT_AS, &r);
    done = true;
  }
}

std::string hex(const std::string &s, std::size_t n = 48) {
  std::string o;
  char b[4];
  for (std::size_t i = 0; i < s.size() && i < n; ++i) {
    std::snprintf(b, sizeof b, "%02x", static_cast<unsigned char>(s[i]));
    o += b;
  }
  return o + (s.size() > n ? ".." : "") + "(" + std::to_string(s.size()) + ")";
}

const std::vector<int> kLevels = {-7, -1, 0, 1, 3, 6, 12, 19, 22};

void round_trip(mc::Ctx &c, const std::string &in, int level) {
  const std::string z = zstd::compress(in, level);
  c.state(hex(in, 4000) + std::to_string(level));
  c.check(zstd::decompress(z) == in, "round-trip string", "decompress(compress(x)) != x");
  std::string out = "previous content which is longer than some";
  c.check(zstd::maybe_decompress(z, &out) && out == in, "round-trip maybe string",
          "maybe_decompress failed or differs");
  std::vector<unsigned char> buf(in.size() + 16, 0xA5);
  c.check(zstd::maybe_decompress(z, buf.data() + 8, in.size()), "round-trip maybe buffer");
  bool same = true, guard = true;
  for (std::size_t i = 0; i < in.size(); ++i)
    same = same && buf[8 + i] == static_cast<unsigned char>(in[i]);
  for (std::size_t i = 0; i < 8; ++i)
    guard = guard && buf[i] == 0xA5 && buf[8 + in.size() + i] == 0xA5;
  c.check(same, "round-trip maybe buffer content");
  c.check(guard, "buffer-overrun");
  // array of elements
  const std::string z2 = zstd::compress(in.data(), in.size(), level);
  std::vector<char> back(in.size());
  zstd::decompress(z2, back.data(), back.size());
  c.check(std::string(back.begin(), back.end()) == in, "round-trip array");
  c.step(5);
}

template <typename T> void typed_round_trip(mc::Ctx &c, const std::vector<T> &in) {
  const int level = c.pick(kLevels);
  const std::string z = zstd::compress(in.data(), in.size(), level);
  std::vector<T> out(in.size() + 2, T(77));
  zstd::decompress(z, out.data() + 1, in.size());
  c.check(std::memcmp(out.data() + 1, in.data(), in.size() * sizeof(T)) == 0, "typed round trip");
  c.check(out.front() == T(77) && out.back() == T(77), "typed overrun");
  for (std::size_t n = 0; n <= in.size() + 1; ++n) {
    std::vector<T> o(in.size() + 3, T(55));
    const bool ok = zstd::maybe_decompress(z, o.data(), n);
    c.check(ok == (n == in.size()), "typed size", "an output of another size was accepted or the right one refused");
    for (std::size_t i = n; i < o.size(); ++i)
      c.check(o[i] == T(55), "typed overrun maybe");
  }
  c.state(std::to_string(in.size()) + std::to_string(level) + std::to_string(sizeof(T)) + (in.empty() ? std::string() : std::to_string(static_cast<double>(in[0]))));
}

// Whatever the input is: a verdict, nothing beyond the buffer, no exception.
void damaged(mc::Ctx &c, const std::string &z, std::size_t original) {
  limit_memory();
  c.state(hex(z, 100000));
  c << " damaged=" << hex(z, 64);
  std::string out;
  const auto announced = ZSTD_getFrameContentSize(z.data(), z.size());
  bool ok = false;
  try {
    ok = zstd::maybe_decompress(z, &out);
  } catch (const std::exception &e) {
    c.report("damaged-throws", std::string("maybe_decompress threw ") + e.what() + " for " + hex(z, 64));
    return;
  }
  if (ok)
    c.check(out.size() == announced, "damaged-size",
            "success with " + std::to_string(out.size()) + " bytes but " + std::to_string(announced) + " were announced");
  // an independent decision of zstd itself
  if (announced != ZSTD_CONTENTSIZE_ERROR && announced != ZSTD_CONTENTSIZE_UNKNOWN && announced < (1u << 24)) {
    std::string direct(announced, '\0');
    const std::size_t got = ZSTD_decompress(&direct[0], direct.size(), z.data(), z.size());
    const bool right = !ZSTD_isError(got) && got == announced;
    c.check(ok == right, "damaged-verdict", "verdict " + std::to_string(ok) + " but zstd says " + std::to_string(right));
    if (right)
      c.check(out == direct, "damaged-content");
  } else {
    c.check(!ok, "damaged-accepted", "a stream with no usable size was accepted");
  }
  for (const std::size_t n : {original, original + 1, original > 0 ? original - 1 : 0, std::size_t{0}}) {
    std::vector<unsigned char> buf(n + 64, 0xC3);
    const bool b = zstd::maybe_decompress(z, buf.data() + 32, n);
    bool guard = true;
    for (std::size_t i = 0; i < 32; ++i)
      guard = guard && buf[i] == 0xC3 && buf[32 + n + i] == 0xC3;
    c.check(guard, "damaged-overrun", "bytes outside of the output were written");
    if (b)
      c.check(n == announced && ok, "damaged-buffer-verdict");
    c.step();
  }
}

std::string lcg(std::size_t n, uint64_t seed) {
  std::string s;
  for (std::size_t i = 0; i < n; ++i) {
    seed = seed * 6364136223846793005ull + 1442695040888963407ull;
    s += static_cast<char>(seed >> 56);
  }
  return s;
}

std::string payload(int i) {
  switch (i) {
  case 0:
    return "";
  case 1:
    return "x";
  case 2:
    return std::string(300, 'a');
  case 3:
    return lcg(40, 7);
  case 4:
    return "the quick brown fox jumps over the lazy dog. the quick brown fox jumps over the lazy dog, again and again";
  case 5:
    return std::string(70000, '\0');
  case 6:
    return lcg(300, 3) + lcg(300, 3);
  default: {
    std::string s;
    for (int k = 0; k < 400; ++k)
      s += static_cast<char>(k * k % 97);
    return s;
  }
  }
}

} // namespace

MC_SCENARIO(all_short_strings) {
  const int len = c.range(0, mc::tiered(4, 6));
  std::string s;
  for (int i = 0; i < len; ++i)
    s += c.pick<char>({'\0', 'a', '\xff'});
  round_trip(c, s, c.pick(kLevels));
}

MC_SCENARIO(structured_strings) {
  const std::vector<std::size_t> sizes = {0, 1, 2, 5, 63, 64, 127, 128, 255, 256, 257, 1000, 65535, 65536, 65537, 65791, 65792, 131071, 131072, 131073, 262145};
  const std::size_t n = c.pick(sizes);
  const int kind = c.choose(4);
  std::string s;
  if (kind == 0)
    s = std::string(n, 'q');
  else if (kind == 1)
    s = lcg(n, n);
  else if (kind == 2)
    for (std::size_t i = 0; i < n; ++i)
      s += static_cast<char>((i % 251) ^ (i >> 8));
  else
    s = lcg(n / 2, 5) + std::string(n - n / 2, '\0');
  c << "size " << n << " kind " << kind;
  const int level = mc::thorough() || n < 2000 ? c.pick(kLevels) : c.pick({-1, 3, 12});
  round_trip(c, s, level);
}

MC_SCENARIO(typed_arrays) {
  const int n = c.range(0, 4);
  std::vector<double> d;
  for (int i = 0; i < n; ++i)
    d.push_back(c.pick({0.0, -1.5, 1e300}));
  typed_round_trip(c, d);
  typed_round_trip(c, std::vector<int32_t>(d.size(), -7));
}

MC_SCENARIO(every_truncation) {
  const int p = c.choose(8);
  const auto in = payload(p);
  const std::string z = zstd::compress(in, c.pick({1, 3, 19}));
  const std::size_t keep = static_cast<std::size_t>(c.choose(static_cast<int>(z.size())));
  damaged(c, z.substr(0, keep), in.size());
}

// Every value at every position (for the first 24 and last 16 bytes; three
// values elsewhere).
MC_SCENARIO(every_substitution) {
  const int p = c.choose(8);
  const auto in = payload(p);
  std::string z = zstd::compress(in);
  const std::size_t at = static_cast<std::size_t>(c.choose(static_cast<int>(z.size())));
  const bool dense = mc::thorough() || at < 24 || at + 12 > z.size();
  const int v = dense ? c.choose(255) : c.choose(3) * 85;
  z[at] = static_cast<char>(static_cast<unsigned char>(z[at]) + 1 + v);
  c << "payload " << p << " byte " << at;
  damaged(c, z, in.size());
}

MC_SCENARIO(every_insertion_and_deletion) {
  const int p = c.choose(8);
  const auto in = payload(p);
  std::string z = zstd::compress(in);
  const std::size_t at = static_cast<std::size_t>(c.choose(static_cast<int>(z.size())));
  const int v = c.choose(5);
  if (v == 4)
    z.erase(at, 1);
  else
    z.insert(at, 1, static_cast<char>(v * 85));
  damaged(c, z, in.size());
}

// Two damages in the header, where the announced size lives.
MC_SCENARIO(double_header_damage) {
  const auto in = payload(c.pick({0, 1, 2, 4}));
  std::string z = zstd::compress(in);
  const std::size_t h = std::min<std::size_t>(z.size(), 12);
  const std::size_t a = 4 + static_cast<std::size_t>(c.choose(static_cast<int>(h - 5)));
  const std::size_t b = a + 1 + static_cast<std::size_t>(c.choose(static_cast<int>(h - a - 1)));
  const std::vector<int> vals = {0, 1, 0x20, 0x40, 0x60, 0x80, 0xa0, 0xc0, 0xe0, 0xff, 0x7f};
  z[a] = static_cast<char>(c.pick(vals));
  z[b] = static_cast<char>(c.pick(vals));
  damaged(c, z, in.size());
}

// Short arbitrary byte strings behind the magic number, and without it.
MC_SCENARIO(arbitrary_headers) {
  std::string z = c.flip() ? std::string("\x28\xb5\x2f\xfd", 4) : std::string();
  const int n = c.range(0, mc::tiered(3, 4));
  const std::vector<int> vals = {0, 1, 0x20, 0x60, 0x80, 0xc0, 0xe0, 0xff};
  for (int i = 0; i < n; ++i)
    z += static_cast<char>(c.pick(vals));
  if (c.flip())
    z += std::string(9, '\xff');
  damaged(c, z, 3);
}

// Several frames, trailing data.
MC_SCENARIO(concatenated_frames) {
  const auto a = payload(c.choose(5)), b = payload(c.choose(5));
  const std::string z = zstd::compress(a) + (c.flip() ? zstd::compress(b) : b);
  damaged(c, z, a.size());
}

// The asserting forms refuse what the checking forms reject.
MC_SCENARIO(asserting_forms) {
  const auto in = payload(c.pick({1, 2, 4}));
  std::string z = zstd::compress(in);
  const int kind = c.choose(4);
  if (kind == 0)
    z.pop_back();
  else if (kind == 1)
    z[0] = 'x';
  else if (kind == 2)
    z.clear();
  if (kind < 3)
    c.check(mc::dies([&] { (void)zstd::decompress(z); }), "asserting-string", "damage was accepted");
  std::vector<char> buf(in.size() + 8);
  const std::size_t n = kind < 3 ? in.size() : in.size() + 1;
  c.check(mc::dies([&] { zstd::decompress(z, buf.data(), n); }), "asserting-buffer", "damage or a wrong size was accepted");
}
