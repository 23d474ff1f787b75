// C29: factorizations and representations through every archive.
#include "c29_archives.h"

using namespace albatross;

namespace {

Eigen::MatrixXd symmetric(mc::Ctx &c, int n) {
  Eigen::MatrixXd m(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j <= i; ++j)
      m(i, j) = m(j, i) = i == j ? c.pick<double>({2., 0.1, 0.}) : c.pick<double>({0., 0.3, -1.});
  return m;
}

template <typename F> void with(mc::Ctx &c, const std::string &what, const F &f) {
  try {
    f();
  } catch (const mc::EigenAssertion &e) {
    c.check(false, "loaded-value-unusable", what + ": " + e.what());
  }
}

void same_ldlt(mc::Ctx &c, const Eigen::SerializableLDLT &a, const Eigen::SerializableLDLT &b) {
  c.check(a.is_initialized() == b.is_initialized(), "ldlt-initialized-changed", "whether it is initialized differs");
  c.check(a.rows() == b.rows(), "ldlt-size-changed", "it has " + std::to_string(b.rows()) + " rows");
  if (!a.is_initialized() || a.rows() != b.rows())
    return;
  c.check(a == b, "ldlt-not-equal", "the loaded factorization is not equal to the saved one");
  const Eigen::Index n = a.rows();
  const Eigen::MatrixXd rhs = Eigen::MatrixXd::Identity(n, n);
  auto value = [&](const std::string &what, const auto &f) {
    with(c, what, [&]() {
      const Eigen::MatrixXd x = f(a), y = f(b);
      c.check(arc::same(x, y), ("ldlt-" + what + "-changed").c_str(), what + " was " + arc::show(x) + ", is " + arc::show(y));
    });
  };
  value("diagonal", [](const auto &l) { return Eigen::MatrixXd(l.vectorD()); });
  value("reconstruction", [](const auto &l) { return Eigen::MatrixXd(l.reconstructedMatrix()); });
  value("solve", [&](const auto &l) { return Eigen::MatrixXd(l.solve(rhs)); });
  value("square root product", [&](const auto &l) { return l.sqrt_product(rhs); });
  value("square root solve", [&](const auto &l) { return l.sqrt_solve(rhs); });
  value("transposed square root solve", [&](const auto &l) { return l.sqrt_transpose_solve(rhs); });
  value("square root", [&](const auto &l) { return l.sqrt_transpose(); });
  if (n == 0)
    return;
  value("log determinant", [&](const auto &l) { return Eigen::MatrixXd::Constant(1, 1, l.log_determinant()); });
  c.check(a.is_positive_definite() == b.is_positive_definite(), "ldlt-definite-changed", "whether it is positive definite differs");
  value("norm", [&](const auto &l) { return Eigen::MatrixXd::Constant(1, 1, l.l1_norm()); });
  c.check(a.isPositive() == b.isPositive() && a.isNegative() == b.isNegative(), "ldlt-sign-changed", "its sign differs");
  c.check(a.info() == b.info(), "ldlt-info-changed", "whether it succeeded differs");
  if (a.is_positive_definite()) {
    value("inverse diagonal", [&](const auto &l) { return Eigen::MatrixXd(l.inverse_diagonal()); });
    value("condition number", [&](const auto &l) { return Eigen::MatrixXd::Constant(1, 1, l.rcond()); });
  }
}

Eigen::SerializableLDLT used_ldlt() {
  Eigen::MatrixXd m(2, 2);
  m << 4., -7., -7., 1.;
  return Eigen::SerializableLDLT(m);
}

} // namespace

MC_SCENARIO(ldlts) {
  const int k = arc::pick(c);
  const int n = c.range(0, mc::tiered(2, 3));
  const Eigen::MatrixXd m = symmetric(c, n);
  Eigen::SerializableLDLT a, back;
  if (n > 0 || c.flip())
    a = Eigen::SerializableLDLT(m);
  if (c.flip())
    back = used_ldlt();
  c << arc::show(m);
  c.state(arc::show(m));
  if (arc::round_trip(c, k, "an LDLT", a, back))
    same_ldlt(c, a, back);
}

MC_SCENARIO(representations) {
  const int k = arc::pick(c);
  const int n = c.range(1, 3);
  Eigen::MatrixXd m(n, n), inner(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      m(i, j) = i == j ? 3. + i : 1. / (1. + i + j);
      inner(i, j) = i * j + 0.1;
    }
  const Eigen::MatrixXd rhs = Eigen::MatrixXd::Identity(n, n);
  const int kind = c.choose(3);
  const bool used = c.flip();
  c << "kind " << kind << " of " << n;
  if (kind == 0) {
    ExplainedCovariance e(m, inner), back;
    if (used)
      back = ExplainedCovariance(Eigen::MatrixXd::Identity(2, 2), Eigen::MatrixXd::Identity(2, 2));
    if (!arc::round_trip(c, k, "an explained covariance", e, back))
      return;
    same_ldlt(c, e.outer_ldlt, back.outer_ldlt);
    c.check(arc::same(e.inner, back.inner) && e == back, "explained-covariance-changed", "its inner matrix differs");
    c.check(arc::same(e.solve(rhs), back.solve(rhs)), "explained-covariance-changed", "it solves differently");
  } else if (kind == 1) {
    DirectInverse e(m), back;
    if (used)
      back = DirectInverse(Eigen::MatrixXd::Identity(2, 2));
    if (!arc::round_trip(c, k, "a direct inverse", e, back))
      return;
    c.check(arc::same(e.solve(rhs), back.solve(rhs)) && e == back, "direct-inverse-changed", "it solves differently");
  } else {
    // [A B; B^T C]
    const int p = c.range(1, 2);
    Eigen::MatrixXd b(n, p), cc(p, p);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < p; ++j)
        b(i, j) = 0.2 * (i - j);
    for (int i = 0; i < p; ++i)
      for (int j = 0; j < p; ++j)
        cc(i, j) = i == j ? 5. : 0.5;
    BlockSymmetric<Eigen::SerializableLDLT> e(Eigen::SerializableLDLT(m), b, cc), back;
    if (used)
      back = BlockSymmetric<Eigen::SerializableLDLT>(used_ldlt(), Eigen::MatrixXd::Zero(2, 1), Eigen::MatrixXd::Identity(1, 1));
    if (!arc::round_trip(c, k, "a block symmetric matrix", e, back))
      return;
    const Eigen::MatrixXd r = Eigen::MatrixXd::Identity(n + p, n + p);
    c.check(e.rows() == back.rows() && e == back, "block-symmetric-changed", "it is not equal");
    c.check(arc::same(Eigen::MatrixXd(e.solve(r)), Eigen::MatrixXd(back.solve(r))), "block-symmetric-changed", "it solves differently");
    same_ldlt(c, e.A, back.A);
    same_ldlt(c, e.S, back.S);
  }
}

namespace {

using Sparse = Eigen::SparseMatrix<double>;
using Qr = Eigen::SerializableSPQR<Sparse>;

void same_qr(mc::Ctx &c, const Qr &a, const Qr &b, int rows, int cols) {
  c.check(a.rows() == b.rows() && a.cols() == b.cols(), "spqr-size-changed", "its size differs");
  c.check(a.rank() == b.rank(), "spqr-rank-changed", "its rank was " + std::to_string(a.rank()) + ", is " + std::to_string(b.rank()));
  c.check(a.info() == b.info(), "spqr-info-changed", "whether it succeeded differs");
  const Eigen::MatrixXd ra = Eigen::MatrixXd(Sparse(a.matrixR())), rb = Eigen::MatrixXd(Sparse(b.matrixR()));
  c.check(arc::same(ra, rb), "spqr-R-changed", "R was " + arc::show(ra) + ", is " + arc::show(rb));
  const auto pa = a.colsPermutation(), pb = b.colsPermutation();
  c.check(pa.indices() == pb.indices(), "spqr-permutation-changed", "its permutation differs");
  for (int i = 0; i < rows; ++i) {
    const Eigen::VectorXd e = Eigen::VectorXd::Unit(rows, i);
    const Eigen::VectorXd x = a.solve(e), y = b.solve(e);
    c.check(arc::same(x, y), "spqr-solve-changed", "solved to " + arc::show(x) + ", now to " + arc::show(y));
    Eigen::MatrixXd m = e;
    const Eigen::MatrixXd qa = a.matrixQ().transpose() * m, qb = b.matrixQ().transpose() * m;
    c.check(arc::same(qa, qb), "spqr-Q-changed", "Q differs");
  }
}

} // namespace

// Larger ones, whose rows and columns are moved by the factorization.
MC_SCENARIO(large_spqrs) {
  const int k = arc::pick(c);
  const int rows = c.pick<int>({5, 12, 21, 40}), cols = c.pick<int>({2, 5, 12, 21}), shape = c.choose(5);
  const bool used = c.flip();
  Eigen::MatrixXd m = Eigen::MatrixXd::Zero(rows, cols);
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j) {
      const double v = 1. + std::sin(1. + 3 * i + 7 * j);
      const bool set = shape == 0 ? true : shape == 1 ? (i * 5 + j * 3) % 7 < 2 : shape == 2 ? std::abs(i - j) < 2 : shape == 3 ? (rows - 1 - i) / 2 == j : (i % cols == (j * 3) % cols);
      m(i, j) = set ? v : 0.;
    }
  c.assume(m.cwiseAbs().sum() > 0.);
  const std::string s = std::to_string(rows) + "x" + std::to_string(cols) + " shape " + std::to_string(shape) + (used ? " over another" : "");
  c << s;
  c.state(s);
  Qr a, back;
  a.setSPQROrdering(SPQR_ORDERING_COLAMD);
  a.compute(Sparse(m.sparseView()));
  if (used)
    back.compute(Sparse(Eigen::MatrixXd::Ones(30, 4).sparseView()));
  if (!arc::round_trip(c, k, "a large sparse QR", a, back))
    return;
  same_qr(c, a, back, rows, cols);
}

MC_SCENARIO(spqrs) {
  const int k = arc::pick(c);
  const int rows = c.range(1, 3), cols = c.range(1, mc::tiered(2, 3));
  c.assume(rows * cols <= 6);
  Eigen::MatrixXd m(rows, cols);
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j)
      m(i, j) = rows * cols > 4 ? c.pick<double>({0., 1.5}) : c.pick<double>({0., 1.5, -2.});
  c.assume(m.cwiseAbs().sum() > 0.);
  const bool used = c.flip();
  Qr a, back;
  a.setSPQROrdering(SPQR_ORDERING_COLAMD);
  a.compute(Sparse(m.sparseView()));
  if (used) {
    Eigen::MatrixXd other = Eigen::MatrixXd::Ones(4, 2);
    other(3, 1) = 2.;
    back.compute(Sparse(other.sparseView()));
  }
  c << arc::show(m) << (used ? " over another" : "");
  c.state(arc::show(m));
  // it solves before and after: the saved one is left as it was
  const Eigen::VectorXd ones = Eigen::VectorXd::Ones(rows);
  const Eigen::VectorXd before = a.solve(ones);
  if (!arc::round_trip(c, k, "a sparse QR", a, back))
    return;
  same_qr(c, a, back, rows, cols);
  c.check(arc::same(before, Eigen::VectorXd(a.solve(ones))), "spqr-saved-one-changed", "saving changed it");
  // the loaded one can be saved and can be used for another matrix
  if (c.flip()) {
    Qr again;
    if (arc::round_trip(c, k, "a loaded sparse QR", back, again))
      same_qr(c, a, again, rows, cols);
  } else {
    back.compute(Sparse((m * 2.).sparseView()));
    Qr fresh;
    fresh.setSPQROrdering(SPQR_ORDERING_COLAMD);
    fresh.compute(Sparse((m * 2.).sparseView()));
    same_qr(c, fresh, back, rows, cols);
  }
}

namespace {
// Owns a CHOLMOD matrix made with the allocator it is released with.
struct Common {
  Common() { cholmod_l_start(&cc); }
  ~Common() { cholmod_l_finish(&cc); }
  cholmod_common cc;
};
} // namespace

MC_SCENARIO(cholmod_matrices) {
  const int k = arc::pick(c);
  const int rows = c.range(1, 3), cols = c.range(1, 2);
  const int xtype = c.pick<int>({CHOLMOD_PATTERN, CHOLMOD_REAL, CHOLMOD_COMPLEX});
  const bool packed = c.flip();
  const int spare = c.choose(2);
  const auto pattern = c.subset(rows * cols);
  const int nz = static_cast<int>(pattern.size());
  c << rows << "x" << cols << " of type " << xtype << (packed ? "" : " unpacked") << " with " << nz << " elements and " << spare << " spare";
  c.state(arc::str(pattern) + arc::str(xtype));
  Common common;
  cholmod_sparse *a = cholmod_l_allocate_sparse(rows, cols, nz + spare, true, packed, 0, xtype, &common.cc);
  cholmod_sparse *b = cholmod_l_allocate_sparse(1, 1, 1, true, true, 0, CHOLMOD_REAL, &common.cc);
  const int per = xtype == CHOLMOD_COMPLEX ? 2 : 1;
  auto *ap = static_cast<SuiteSparse_long *>(a->p), *ai = static_cast<SuiteSparse_long *>(a->i);
  int at = 0;
  for (int j = 0; j < cols; ++j) {
    ap[j] = at;
    for (auto e : pattern)
      if (static_cast<int>(e) / rows == j)
        ai[at++] = static_cast<SuiteSparse_long>(e) % rows;
    if (!packed)
      static_cast<SuiteSparse_long *>(a->nz)[j] = at - ap[j];
  }
  ap[cols] = at;
  for (int i = at; i < nz + spare; ++i)
    ai[i] = 0;
  if (xtype != CHOLMOD_PATTERN)
    for (int i = 0; i < (nz + spare) * per; ++i)
      static_cast<double *>(a->x)[i] = i + 0.1;
  if (arc::round_trip(c, k, "a CHOLMOD matrix", *a, *b)) {
    bool ok = a->nrow == b->nrow && a->ncol == b->ncol && a->nzmax == b->nzmax && a->xtype == b->xtype && a->packed == b->packed &&
              a->sorted == b->sorted && a->stype == b->stype;
    c.check(ok, "cholmod-sparse-changed", "its description differs");
    if (ok) {
      c.check(std::memcmp(a->p, b->p, (cols + 1) * sizeof(SuiteSparse_long)) == 0 && std::memcmp(a->i, b->i, nz * sizeof(SuiteSparse_long)) == 0,
              "cholmod-sparse-changed", "its pattern differs");
      if (!packed)
        c.check(b->nz && std::memcmp(a->nz, b->nz, cols * sizeof(SuiteSparse_long)) == 0, "cholmod-sparse-changed", "its column sizes differ");
      if (xtype != CHOLMOD_PATTERN)
        c.check(b->x && std::memcmp(a->x, b->x, nz * per * sizeof(double)) == 0, "cholmod-sparse-changed", "its values differ");
    }
  }
  cholmod_l_free_sparse(&a, &common.cc);
  cholmod_l_free_sparse(&b, &common.cc);
}

MC_SCENARIO(cholmod_dense_matrices) {
  const int k = arc::pick(c);
  const int rows = c.range(1, 3), cols = c.range(1, 2), extra = c.choose(2);
  const int xtype = c.pick<int>({CHOLMOD_REAL, CHOLMOD_COMPLEX});
  c << rows << "x" << cols << " of type " << xtype << " with " << extra << " spare rows";
  Common common;
  cholmod_dense *a = cholmod_l_allocate_dense(rows, cols, rows + extra, xtype, &common.cc);
  cholmod_dense *b = cholmod_l_allocate_dense(1, 1, 1, CHOLMOD_REAL, &common.cc);
  const int n = (rows + extra) * cols * (xtype == CHOLMOD_COMPLEX ? 2 : 1);
  for (int i = 0; i < n; ++i)
    static_cast<double *>(a->x)[i] = i + 0.1;
  if (arc::round_trip(c, k, "a CHOLMOD matrix", *a, *b)) {
    const bool ok = a->nrow == b->nrow && a->ncol == b->ncol && a->d == b->d && a->xtype == b->xtype;
    c.check(ok && std::memcmp(a->x, b->x, n * sizeof(double)) == 0, "cholmod-dense-changed", "it differs");
  }
  cholmod_l_free_dense(&a, &common.cc);
  cholmod_l_free_dense(&b, &common.cc);
}

MC_SCENARIO(older_versions) {
  // An archive of an older version of the format still loads.
  const int n = c.range(1, 2);
  const Eigen::MatrixXd m = symmetric(c, n);
  Eigen::SerializableLDLT a(m), back;
  c << arc::show(m) << " in version 0";
  std::ostringstream os;
  {
    cereal::JSONOutputArchive ar(os);
    cereal::save(ar, a, 0);
  }
  std::istringstream is(os.str());
  {
    cereal::JSONInputArchive ar(is);
    cereal::load(ar, back, 0);
  }
  c.check(a == back, "old-ldlt-not-equal", "it is not equal");
  const Eigen::MatrixXd rhs = Eigen::MatrixXd::Identity(n, n);
  c.check(arc::same(Eigen::MatrixXd(a.solve(rhs)), Eigen::MatrixXd(back.solve(rhs))), "old-ldlt-changed", "it solves differently");
}

MC_SCENARIO(older_variants) {
  using V = variant<int, double, std::string>;
  V v, back;
  switch (c.choose(3)) {
  case 0:
    v = 3;
    break;
  case 1:
    v = 0.5;
    break;
  default:
    v = std::string("x");
  }
  c << "alternative " << v.which() << " in version 0";
  std::ostringstream os;
  {
    cereal::JSONOutputArchive ar(os);
    cereal::save(ar, v, 0);
  }
  std::istringstream is(os.str());
  {
    cereal::JSONInputArchive ar(is);
    cereal::load(ar, back, 0);
  }
  c.check(v == back, "old-variant-changed", "it differs");
}
