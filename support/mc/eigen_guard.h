// Force-included first: Eigen's assertions become exceptions (so a violated
// precondition inside an execution is a reported violation, not a dead
// process), and freshly allocated matrices hold NaN (so an entry the code
// forgot to write can not look right by luck).
#ifndef VERIF_EIGEN_GUARD_H
#define VERIF_EIGEN_GUARD_H
#ifdef __cplusplus
#include <stdexcept>
#include <string>
namespace mc {
struct EigenAssertion : public std::logic_error {
  explicit EigenAssertion(const char *what) : std::logic_error(what) {}
};
inline void eigen_assertion_failed(const char *what) {
  throw EigenAssertion(what);
}
} // namespace mc
#define eigen_assert(x)                                                        \
  do {                                                                         \
    if (!(x))                                                                  \
      ::mc::eigen_assertion_failed("Eigen assertion: " #x);                    \
  } while (false)
#define EIGEN_INITIALIZE_MATRICES_BY_NAN 1
#endif
#endif
