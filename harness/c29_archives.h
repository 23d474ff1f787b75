// C29: the four archives, and a round trip through one of them.
#pragma once
#include <albatross/serialize/GP>
#include <albatross/serialize/LeastSquares>
#include <albatross/serialize/Ransac>
#include <albatross/LeastSquares>
#include <albatross/NullModel>
#include <albatross/serialize/Evaluation>
#include "mc.h"
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>

namespace arc {

enum Kind { Binary, Portable, Json, Xml };
inline const char *name(int k) {
  static const char *n[] = {"binary", "portable binary", "JSON", "XML"};
  return n[k];
}
inline bool text(int k) { return k == Json || k == Xml; }

// Pick an archive.
inline int pick(mc::Ctx &c) {
  const int k = c.choose(4);
  c << name(k) << " archive; ";
  return k;
}

template <typename Out, typename T> std::string save_with(const T &x) {
  std::ostringstream os;
  {
    Out ar(os);
    ar(cereal::make_nvp("x", x));
  }
  return os.str();
}
template <typename In, typename T> void load_with(const std::string &s, T &x) {
  std::istringstream is(s);
  In ar(is);
  ar(cereal::make_nvp("x", x));
}

template <typename T> std::string save(int k, const T &x) {
  switch (k) {
  case Binary:
    return save_with<cereal::BinaryOutputArchive>(x);
  case Portable:
    return save_with<cereal::PortableBinaryOutputArchive>(x);
  case Json:
    return save_with<cereal::JSONOutputArchive>(x);
  default:
    return save_with<cereal::XMLOutputArchive>(x);
  }
}

template <typename T> void load(int k, const std::string &s, T &x) {
  switch (k) {
  case Binary:
    return load_with<cereal::BinaryInputArchive>(s, x);
  case Portable:
    return load_with<cereal::PortableBinaryInputArchive>(s, x);
  case Json:
    return load_with<cereal::JSONInputArchive>(s, x);
  default:
    return load_with<cereal::XMLInputArchive>(s, x);
  }
}

template <typename T, typename = void> struct comparable : std::false_type {};
template <typename T> struct comparable<T, std::void_t<decltype(static_cast<bool>(std::declval<const T &>() == std::declval<const T &>()))>> : std::is_copy_constructible<T> {};

// Save `from`, load the result into `into`; reports and returns false when
// that throws, or when what was loaded is not written the way it was read.
template <typename T> bool round_trip(mc::Ctx &c, int k, const std::string &what, const T &from, T &into) {
  std::string written;
  try {
    if constexpr (comparable<T>::value) {
      const T before(from);
      const bool reflexive = from == before;
      written = save(k, from);
      c.check(!reflexive || from == before, "saving-changes-what-is-saved", what + " changed when it was saved");
    } else {
      written = save(k, from);
    }
  } catch (const std::exception &e) {
    c.check(false, "save-failed", what + " cannot be saved: " + e.what());
    return false;
  }
  try {
    load(k, written, into);
  } catch (const std::exception &e) {
    c.check(false, "load-failed", what + " cannot be loaded: " + std::string(e.what()));
    return false;
  }
  c.step();
  return true;
}

// What an earlier version of the library would have written: objects which
// hold `mark` lose the members of later versions and say they are `version`.
struct Earlier {
  const char *mark;
  unsigned version;
  std::vector<const char *> members;
};
inline int make_earlier(rapidjson::Value &v, const Earlier &e) {
  int changed = 0;
  if (v.IsArray())
    for (auto &x : v.GetArray())
      changed += make_earlier(x, e);
  if (!v.IsObject())
    return changed;
  for (auto &m : v.GetObject())
    changed += make_earlier(m.value, e);
  if (!v.HasMember(e.mark))
    return changed;
  for (const char *m : e.members)
    v.EraseMember(m);
  if (v.HasMember("cereal_class_version"))
    v["cereal_class_version"].SetUint(e.version);
  return changed + 1;
}
inline std::string make_earlier(const std::string &json, const std::vector<Earlier> &all, int &changed) {
  rapidjson::Document d;
  d.Parse(json.c_str());
  for (const auto &e : all)
    changed += make_earlier(d, e);
  rapidjson::StringBuffer out;
  rapidjson::Writer<rapidjson::StringBuffer, rapidjson::UTF8<>, rapidjson::UTF8<>, rapidjson::CrtAllocator, rapidjson::kWriteNanAndInfFlag> w(out);
  d.Accept(w);
  return out.GetString();
}

template <typename T> std::string str(const T &x) {
  std::ostringstream os;
  os.precision(17);
  os << x;
  return os.str();
}
template <typename T> std::string str(const std::vector<T> &x) {
  std::string out;
  for (const auto &e : x)
    out += str(e) + " ";
  return out;
}

inline bool same_bits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }

template <typename A, typename B> bool same(const A &a, const B &b) {
  if (a.rows() != b.rows() || a.cols() != b.cols())
    return false;
  for (Eigen::Index i = 0; i < a.rows(); ++i)
    for (Eigen::Index j = 0; j < a.cols(); ++j)
      if (!same_bits(a(i, j), b(i, j)))
        return false;
  return true;
}

template <typename A> std::string show(const A &a) {
  std::ostringstream os;
  os.precision(17);
  os << a.rows() << "x" << a.cols() << " [";
  for (Eigen::Index i = 0; i < a.rows(); ++i) {
    os << (i ? "; " : "");
    for (Eigen::Index j = 0; j < a.cols(); ++j)
      os << (j ? " " : "") << a(i, j);
  }
  os << "]";
  return os.str();
}

} // namespace arc
