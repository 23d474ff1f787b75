// C21: structured matrices, factorizations and solves against the dense
// computation (in long double).
#include <albatross/SparseGP>
#include <albatross/linalg/Block>
#include <albatross/linalg/Utils>

#include "mc.h"

#include <algorithm>
#include <map>
#include <set>
#include <sstream>

using namespace albatross;

namespace {

using Real = long double;
using LMat = Eigen::Matrix<Real, Eigen::Dynamic, Eigen::Dynamic>;
using Eigen::Index;
using Eigen::MatrixXd;
using Eigen::VectorXd;

LMat wide(const MatrixXd &m) { return m.cast<Real>(); }
LMat inverse(const LMat &m) { return m.rows() == 0 ? m : LMat(m.fullPivLu().inverse()); }
Real log_det(const LMat &m) { return m.rows() == 0 ? 0.L : std::log(std::abs(m.fullPivLu().determinant())); }
double largest(const LMat &m) { return m.size() == 0 ? 0. : static_cast<double>(m.cwiseAbs().maxCoeff()); }

void same(mc::Ctx &c, const MatrixXd &got, const LMat &want, const char *key, const std::string &what, double tol = 1e-9) {
  c.check(got.rows() == want.rows() && got.cols() == want.cols(), key, what + " shape " + std::to_string(got.rows()) + "x" + std::to_string(got.cols()));
  if (got.rows() != want.rows() || got.cols() != want.cols())
    return;
  const double scale = std::max(1., largest(want));
  for (Index i = 0; i < got.rows(); ++i)
    for (Index j = 0; j < got.cols(); ++j)
      c.close(got(i, j), static_cast<double>(want(i, j)), key, what, tol, tol * scale);
}
std::string text(const MatrixXd &m) {
  std::ostringstream s;
  s << m.rows() << "x" << m.cols() << "[";
  for (Index i = 0; i < m.rows(); ++i) {
    s << (i ? "; " : "");
    for (Index j = 0; j < m.cols(); ++j)
      s << (j ? " " : "") << m(i, j);
  }
  s << "]";
  return s.str();
}

// L L^T of every small integer lower triangle (diagonals from `diag`, the
// rest from `off`), rows and columns then scaled so that pivots move.
MatrixXd psd(mc::Ctx &c, int n, const std::vector<double> &diag, const std::vector<double> &off, bool scaled) {
  MatrixXd l = MatrixXd::Zero(n, n);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < i; ++j)
      l(i, j) = c.pick(off);
    l(i, i) = c.pick(diag);
  }
  MatrixXd m = l * l.transpose();
  if (scaled) {
    const int how = c.choose(3);
    if (how > 0) {
      const VectorXd s = how == 1 ? VectorXd(VectorXd::LinSpaced(n, 0.25, 8.)) : VectorXd(VectorXd::LinSpaced(n, 3., 0.125));
      m = s.asDiagonal() * m * s.asDiagonal();
    }
  }
  return m;
}
// A few definite matrices of each size, some of which pivot.
MatrixXd definite(mc::Ctx &c, int n) {
  const int which = c.choose(3);
  MatrixXd m(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      m(i, j) = which == 0 ? (i == j ? 2. : 0.) : which == 1 ? (i == j ? 1.5 + 2. * i : 0.75) : (i == j ? 4. + (n - i) * 0.5 : (i + j) % 2 ? -1. : 0.5);
  return m;
}
MatrixXd right_hand_side(int rows, int cols) {
  MatrixXd r(rows, cols);
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j)
      r(i, j) = 1. + i - 2.5 * j + 0.5 * i * j * j;
  return r;
}
Eigen::SparseMatrix<double> sparse_right_hand_side(int rows, int cols) {
  MatrixXd r = right_hand_side(rows, cols);
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j)
      if ((i + j) % 2)
        r(i, j) = 0.;
  return r.sparseView();
}

void check_ldlt(mc::Ctx &c, const Eigen::SerializableLDLT &f, const MatrixXd &m, const std::string &s) {
  const Index n = m.rows();
  const LMat A = wide(m), Ai = inverse(A), I = LMat::Identity(n, n);
  const MatrixXd identity = MatrixXd::Identity(n, n);
  const MatrixXd rhs = right_hand_side(static_cast<int>(n), 2);
  const VectorXd v = rhs.col(1);
  const double cond = static_cast<double>(largest(A) * largest(Ai));
  const double tol = 1e-13 * std::max(1e3, cond * 10);
  same(c, f.reconstructedMatrix(), A, "ldlt-reconstructs", s);
  same(c, f.solve(rhs), Ai * wide(rhs), "ldlt-solve", s, tol);
  const MatrixXd root = f.sqrt_product(identity);
  same(c, root * root.transpose(), A, "ldlt-sqrt-product", s);
  same(c, f.sqrt_product(rhs), wide(root) * wide(rhs), "ldlt-sqrt-product-rhs", s);
  same(c, f.sqrt_product(v), wide(root) * wide(v), "ldlt-sqrt-product-vector", s);
  same(c, f.sqrt_transpose(), wide(root).transpose(), "ldlt-sqrt-transpose", s);
  same(c, f.sqrt_solve(root), I, "ldlt-sqrt-solve", s, tol);
  same(c, f.sqrt_solve(identity), inverse(wide(root)), "ldlt-sqrt-solve-identity", s, tol);
  same(c, f.sqrt_solve(v), inverse(wide(root)) * wide(v), "ldlt-sqrt-solve-vector", s, tol);
  same(c, f.sqrt_solve(rhs.leftCols(1)), inverse(wide(root)) * wide(rhs.leftCols(1)), "ldlt-sqrt-solve-block", s, tol);
  same(c, f.sqrt_transpose_solve(rhs), inverse(LMat(wide(root).transpose())) * wide(rhs), "ldlt-sqrt-transpose-solve", s, tol);
  same(c, f.sqrt_transpose_solve(v), inverse(LMat(wide(root).transpose())) * wide(v), "ldlt-sqrt-transpose-solve-vector", s, tol);
  c.close(f.log_determinant(), static_cast<double>(log_det(A)), "ldlt-log-determinant", s, 1e-9, 1e-9);
  same(c, f.inverse_diagonal(), Ai.diagonal(), "ldlt-inverse-diagonal", s, tol);
  c.check(f.is_positive_definite(), "ldlt-positive-definite", s);
  c.check(f.is_initialized(), "ldlt-initialized", s);
  c.close(f.l1_norm(), static_cast<double>(A.cwiseAbs().colwise().sum().maxCoeff()), "ldlt-l1-norm", s, 1e-12, 1e-12);
  const MatrixXd d = f.diagonal_sqrt() * identity, di = f.diagonal_sqrt_inverse() * identity;
  same(c, d * d, wide(MatrixXd(f.vectorD().asDiagonal())), "ldlt-diagonal-sqrt", s);
  same(c, d * di, I, "ldlt-diagonal-sqrt-inverse", s);
}

} // namespace

// Every small definite matrix.
MC_SCENARIO(ldlt) {
  const int n = c.range(1, 3), build = c.choose(3);
  const MatrixXd m = psd(c, n, mc::thorough() ? std::vector<double>{1., 2., 3.} : std::vector<double>{1., 3.}, mc::thorough() ? std::vector<double>{0., 1., -1., -2.} : std::vector<double>{0., 1., -2.}, true);
  const std::string s = "ldlt of " + text(m) + " built " + std::to_string(build);
  c << s;
  c.state(s);
  c.step();
  Eigen::SerializableLDLT f;
  if (build == 0) {
    f = Eigen::SerializableLDLT(m);
  } else if (build == 1) {
    const Eigen::LDLT<MatrixXd, Eigen::Lower> l(m);
    f = Eigen::SerializableLDLT(l);
  } else {
    f = m.ldlt();
  }
  check_ldlt(c, f, m, s);
}
MC_SCENARIO_THOROUGH(ldlt_larger) {
  const MatrixXd m = psd(c, 4, {1., 3.}, {0., 1., -2.}, true);
  const std::string s = "ldlt of " + text(m);
  c << s;
  c.state(s);
  c.step();
  check_ldlt(c, Eigen::SerializableLDLT(m), m, s);
}

namespace {
void check_inverse_blocks(mc::Ctx &c, const MatrixXd &m, const std::vector<std::vector<std::size_t>> &blocks, const std::string &s) {
  const LMat Ai = inverse(wide(m));
  const Eigen::SerializableLDLT f(m);
  const auto got = f.inverse_blocks(blocks);
  c.check(got.size() == blocks.size(), "inverse-blocks-count", s);
  for (std::size_t k = 0; k < got.size(); ++k) {
    LMat want(static_cast<Index>(blocks[k].size()), static_cast<Index>(blocks[k].size()));
    for (std::size_t i = 0; i < blocks[k].size(); ++i)
      for (std::size_t j = 0; j < blocks[k].size(); ++j)
        want(static_cast<Index>(i), static_cast<Index>(j)) = Ai(static_cast<Index>(blocks[k][i]), static_cast<Index>(blocks[k][j]));
    same(c, got[k], want, "inverse-blocks", s);
  }
}
} // namespace

// Blocks of the inverse: every list of up to two index sets, in any order.
MC_SCENARIO(inverse_blocks) {
  const int n = c.range(1, mc::tiered(3, 4));
  const MatrixXd m = definite(c, n);
  const int lists = c.range(0, 2);
  std::vector<std::vector<std::size_t>> blocks;
  std::string s = "blocks of the inverse of " + text(m);
  for (int k = 0; k < lists; ++k) {
    std::vector<std::size_t> b;
    const auto chosen = c.subset(static_cast<std::size_t>(n));
    for (auto i : c.permutation(chosen.size()))
      b.push_back(chosen[i]);
    s += " {";
    for (auto i : b)
      s += " " + std::to_string(i);
    s += " }";
    c.assume(!b.empty());
    blocks.push_back(b);
  }
  c << s;
  c.state(s);
  c.step();
  check_inverse_blocks(c, m, blocks, s);
}

// Factorizations of semi-definite and indefinite matrices.
MC_SCENARIO(not_definite) {
  const int n = c.range(1, 3);
  MatrixXd m = psd(c, n, {0., 1., 2.}, {0., 1., -1.}, false);
  const int negative = c.choose(n + 1);
  const LMat A = wide(m);
  const bool singular = std::abs(static_cast<double>(n ? A.fullPivLu().determinant() : 1.L)) < 0.5;
  if (negative < n) {
    m = MatrixXd(m.diagonal().asDiagonal());
    m(negative, negative) = -1.5;
  }
  const std::string s = "ldlt of " + text(m);
  c << s;
  c.state(s);
  c.step();
  const Eigen::SerializableLDLT f(m);
  same(c, f.reconstructedMatrix(), wide(m), "semi-ldlt-reconstructs", s);
  if (negative < n) {
    c.check(!f.is_positive_definite(), "indefinite-not-positive-definite", s);
    // the square root leaves out what has none
    MatrixXd kept = m;
    kept(negative, negative) = 0.;
    const MatrixXd root = f.sqrt_product(MatrixXd::Identity(n, n));
    same(c, root * root.transpose(), wide(kept), "indefinite-sqrt-product", s);
    const MatrixXd white = f.sqrt_solve(MatrixXd::Identity(n, n));
    MatrixXd pseudo = MatrixXd::Zero(n, n);
    for (int i = 0; i < n; ++i)
      if (kept(i, i) > 0.)
        pseudo(i, i) = 1. / kept(i, i);
    same(c, white.transpose() * white, wide(pseudo), "indefinite-sqrt-solve", s);
    return;
  }
  if (!singular)
    c.check(f.is_positive_definite(), "definite-positive-definite", s);
  else if (m.isDiagonal())
    c.check(!f.is_positive_definite(), "semi-not-positive-definite", s);
  const MatrixXd root = f.sqrt_product(MatrixXd::Identity(n, n));
  same(c, root * root.transpose(), wide(m), "semi-sqrt-product", s);
  const MatrixXd transposed = f.sqrt_transpose();
  same(c, transposed.transpose() * transposed, wide(m), "semi-sqrt-transpose", s);
}

// Factorizations are equal when what they factorize is.
MC_SCENARIO(ldlt_equality) {
  std::vector<MatrixXd> matrices = {MatrixXd()};
  for (double d : {1., 2.})
    matrices.push_back(MatrixXd::Constant(1, 1, d));
  for (double a : {1., 4.})
    for (double b : {1., 4.})
      for (double o : {0., 0.5})
        matrices.push_back((MatrixXd(2, 2) << a, o, o, b).finished());
  matrices.push_back(MatrixXd::Identity(3, 3));
  matrices.push_back((MatrixXd(3, 3) << 1, 0, 0, 0, 2, 0, 0, 0, 3).finished());
  const std::size_t i = static_cast<std::size_t>(c.choose(static_cast<int>(matrices.size()))), j = static_cast<std::size_t>(c.choose(static_cast<int>(matrices.size())));
  const std::string s = "ldlt of " + text(matrices[i]) + " == ldlt of " + text(matrices[j]);
  c << s;
  c.state(s);
  c.step();
  const auto build = [&](std::size_t k) { return k == 0 ? Eigen::SerializableLDLT() : Eigen::SerializableLDLT(matrices[k]); };
  const Eigen::SerializableLDLT a = build(i), b = build(j);
  c.check((a == b) == (i == j), "ldlt-equality", s);
  const Eigen::SerializableLDLT copy = a;
  c.check(copy == a, "ldlt-copy-equal", s);
  if (i && j) {
    const MatrixXd inner = MatrixXd::Identity(matrices[i].rows(), matrices[i].rows());
    const ExplainedCovariance e(a, inner), f(a, 2. * inner);
    c.check(e == e && !(e == f), "explained-equality", s);
    if (matrices[i].rows() == matrices[j].rows()) {
      c.check((ExplainedCovariance(b, inner) == e) == (i == j), "explained-equality", s);
      c.check((DirectInverse(matrices[i]) == DirectInverse(matrices[j])) == (i == j), "direct-equality", s);
    }
  }
}

namespace {
void check_block_diagonal(mc::Ctx &c, const BlockDiagonal &m, const BlockDiagonal &other, int n, const std::string &s) {
  // what it represents
  LMat A = LMat::Zero(n, n), O = A;
  Index at = 0;
  for (std::size_t b = 0; b < m.blocks.size(); ++b) {
    const Index k = m.blocks[b].rows();
    A.block(at, at, k, k) = wide(m.blocks[b]);
    O.block(at, at, k, k) = wide(other.blocks[b]);
    at += k;
  }
  const LMat Ai = inverse(A);
  c.check(m.rows() == n && m.cols() == n, "block-diagonal-shape", s);
  same(c, m.toDense(), A, "block-diagonal-dense", s);
  same(c, m.diagonal(), A.diagonal(), "block-diagonal-diagonal", s);
  same(c, (m - other).toDense(), A - O, "block-diagonal-subtract", s);
  const MatrixXd rhs = right_hand_side(n, 3);
  const VectorXd v = rhs.col(2);
  same(c, m * rhs, A * wide(rhs), "block-diagonal-product", s);
  same(c, m * v, A * wide(v), "block-diagonal-product-vector", s);
  const BlockDiagonalLDLT f = m.ldlt();
  c.check(f.rows() == n && f.cols() == n, "block-ldlt-shape", s);
  c.close(f.log_determinant(), static_cast<double>(log_det(A)), "block-ldlt-log-determinant", s, 1e-10, 1e-10);
  const Real condition = A.cwiseAbs().colwise().sum().maxCoeff() * Ai.cwiseAbs().colwise().sum().maxCoeff();
  const double rcond = f.rcond();
  c.check(rcond >= static_cast<double>(1.L / condition) * (1. - 1e-9) && rcond <= static_cast<double>(3.L / condition), "block-ldlt-rcond", s + " got " + std::to_string(rcond) + " of " + std::to_string(static_cast<double>(1.L / condition)));
  same(c, f.solve(rhs), Ai * wide(rhs), "block-ldlt-solve", s);
  same(c, f.solve(v), Ai * wide(v), "block-ldlt-solve-vector", s);
  same(c, f.solve(2. * rhs), 2. * Ai * wide(rhs), "block-ldlt-solve-expression", s);
  same(c, f.solve(rhs.leftCols(2)), Ai * wide(rhs.leftCols(2)), "block-ldlt-solve-block", s);
  same(c, f.solve(rhs.block(0, 1, n, 1)), Ai * wide(rhs.col(1)), "block-ldlt-solve-block", s);
  const auto sparse = sparse_right_hand_side(n, 3);
  same(c, f.solve(sparse), Ai * wide(MatrixXd(sparse)), "block-ldlt-solve-sparse", s);
  same(c, f.adjoint().solve(rhs), Ai * wide(rhs), "block-ldlt-adjoint", s);
  // square roots: any root will do so long as it is one, the same everywhere
  const MatrixXd white = f.sqrt_solve(MatrixXd(MatrixXd::Identity(n, n)));
  same(c, white.transpose() * white, Ai, "block-ldlt-sqrt-solve", s);
  at = 0;
  LMat outside = wide(white);
  for (const auto &b : m.blocks) {
    outside.block(at, at, b.rows(), b.rows()).setZero();
    at += b.rows();
  }
  same(c, outside.cast<double>(), LMat::Zero(n, n), "block-ldlt-sqrt-solve-blocks", s);
  same(c, f.sqrt_solve(rhs), wide(white) * wide(rhs), "block-ldlt-sqrt-solve-rhs", s);
  same(c, f.sqrt_solve(v), wide(white) * wide(v), "block-ldlt-sqrt-solve-vector", s);
  same(c, f.sqrt_solve(rhs.leftCols(2)), wide(white) * wide(rhs.leftCols(2)), "block-ldlt-sqrt-solve-block", s);
  same(c, f.sqrt_solve(sparse), wide(white) * wide(MatrixXd(sparse)), "block-ldlt-sqrt-solve-sparse", s);
  for (int threads : {0, 1, 2}) {
    const auto pool = threads ? std::make_unique<ThreadPool>(static_cast<std::size_t>(threads)) : std::unique_ptr<ThreadPool>();
    same(c, f.solve(rhs, pool.get()), Ai * wide(rhs), "block-ldlt-solve-pool", s);
    same(c, f.solve(v, pool.get()), Ai * wide(v), "block-ldlt-solve-pool-vector", s);
    same(c, f.sqrt_solve(rhs, pool.get()), wide(white) * wide(rhs), "block-ldlt-sqrt-solve-pool", s);
    same(c, f.sqrt_solve(v, pool.get()), wide(white) * wide(v), "block-ldlt-sqrt-solve-pool-vector", s);
  }
  const auto rows = f.block_to_row_map();
  c.check(rows.size() == m.blocks.size(), "block-rows", s);
  Index row = 0;
  for (std::size_t b = 0; b < m.blocks.size(); ++b) {
    c.check(rows.at(b) == row, "block-rows", s);
    row += m.blocks[b].rows();
  }
}
} // namespace

// Block diagonal matrices and their factorizations: every way to cut a
// dimension into blocks.
MC_SCENARIO(block_diagonal) {
  BlockDiagonal m, other;
  int n = 0;
  const int most = mc::tiered(4, 5);
  const int blocks = c.range(1, mc::tiered(3, 4));
  for (int b = 0; b < blocks; ++b) {
    const int size = c.range(1, 3);
    n += size;
    c.assume(n <= most);
    m.blocks.push_back(definite(c, size));
    other.blocks.push_back(right_hand_side(size, size) * (b + 1.));
  }
  std::string s = "blocks";
  for (const auto &b : m.blocks)
    s += " " + text(b);
  c << s;
  c.state(s);
  c.step();
  check_block_diagonal(c, m, other, n, s);
}

namespace {
void check_block_rectangular(mc::Ctx &c, const BlockDiagonal &m, const BlockDiagonal &other, int rows, int cols, const std::string &s) {
  LMat A = LMat::Zero(rows, cols), O = A;
  Index i = 0, j = 0;
  for (std::size_t b = 0; b < m.blocks.size(); ++b) {
    A.block(i, j, m.blocks[b].rows(), m.blocks[b].cols()) = wide(m.blocks[b]);
    O.block(i, j, m.blocks[b].rows(), m.blocks[b].cols()) = wide(other.blocks[b]);
    i += m.blocks[b].rows();
    j += m.blocks[b].cols();
  }
  c.check(m.rows() == rows && m.cols() == cols, "rectangular-shape", s);
  same(c, m.toDense(), A, "rectangular-dense", s);
  const MatrixXd rhs = right_hand_side(cols, 2);
  const VectorXd v = rhs.col(1);
  same(c, m * rhs, A * wide(rhs), "rectangular-product", s);
  same(c, m * v, A * wide(v), "rectangular-product-vector", s);
  same(c, (m - other).toDense(), A - O, "rectangular-subtract", s);
  if (rows == cols)
    same(c, m.diagonal(), A.diagonal(), "rectangular-diagonal", s);
}
} // namespace

// Blocks need not be square.
MC_SCENARIO(block_rectangular) {
  BlockDiagonal m, other;
  const int blocks = c.range(1, mc::tiered(3, 4));
  int rows = 0, cols = 0;
  for (int b = 0; b < blocks; ++b) {
    const int r = c.range(1, 3), k = c.range(1, 3);
    m.blocks.push_back(right_hand_side(r, k) * (b + 1.));
    other.blocks.push_back(right_hand_side(r, k).array() + b);
    rows += r;
    cols += k;
  }
  std::string s = "blocks";
  for (const auto &b : m.blocks)
    s += " " + text(b);
  c << s;
  c.state(s);
  c.step();
  check_block_rectangular(c, m, other, rows, cols, s);
}

namespace {
template <typename Solver> void check_symmetric(mc::Ctx &c, const Solver &a, const MatrixXd &m, int p, const std::string &s) {
  const int n = static_cast<int>(m.rows()), q = n - p;
  const MatrixXd b = m.topRightCorner(p, q), cc = m.bottomRightCorner(q, q);
  const LMat A = wide(m), Ai = inverse(A);
  const LMat schur = wide(cc) - wide(b).transpose() * inverse(wide(m.topLeftCorner(p, p))) * wide(b);
  const MatrixXd S = schur.cast<double>();
  const MatrixXd rhs = right_hand_side(n, 2);
  const VectorXd v = rhs.col(1);
  const auto x = build_block_symmetric(a, b, cc);
  const auto y = build_block_symmetric(a, b, Eigen::SerializableLDLT(S));
  const auto z = build_block_symmetric(a, b, S.ldlt());
  const BlockSymmetric<Solver> w(a, b, cc);
  for (const auto *t : {&x, &y, &z, &w}) {
    c.check(t->rows() == n && t->cols() == n, "block-symmetric-shape", s);
    same(c, t->solve(rhs), Ai * wide(rhs), "block-symmetric-solve", s);
    same(c, t->solve(v), Ai * wide(v), "block-symmetric-solve-vector", s);
  }
}
} // namespace

// Block symmetric matrices: every small definite matrix, every split.
MC_SCENARIO(block_symmetric) {
  const int n = c.range(2, 3), solver = c.choose(3);
  const MatrixXd m = psd(c, n, {1., 2.}, {0., 1., -2.}, true);
  const int p = c.range(1, n - 1);
  const std::string s = "split " + text(m) + " at " + std::to_string(p) + " solver " + std::to_string(solver);
  c << s;
  c.state(s);
  c.step();
  const MatrixXd a = m.topLeftCorner(p, p);
  if (solver == 0) {
    check_symmetric(c, Eigen::SerializableLDLT(a), m, p, s);
    const auto x = build_block_symmetric(Eigen::SerializableLDLT(a), MatrixXd(m.topRightCorner(p, n - p)), MatrixXd(m.bottomRightCorner(n - p, n - p)));
    const auto same_one = build_block_symmetric(Eigen::SerializableLDLT(a), MatrixXd(m.topRightCorner(p, n - p)), MatrixXd(m.bottomRightCorner(n - p, n - p)));
    const auto larger = build_block_symmetric(Eigen::SerializableLDLT(a), MatrixXd(m.topRightCorner(p, n - p)), MatrixXd(2. * m.bottomRightCorner(n - p, n - p)));
    const auto other = build_block_symmetric(Eigen::SerializableLDLT(MatrixXd(2. * a)), MatrixXd(m.topRightCorner(p, n - p)), MatrixXd(m.bottomRightCorner(n - p, n - p)));
    c.check(x == same_one && !(x == larger) && !(x == other), "block-symmetric-equality", s);
    // (the same corner and complement, another coupling)
    const Eigen::SerializableLDLT corner(a), complement(MatrixXd(m.bottomRightCorner(n - p, n - p)));
    const MatrixXd coupling = m.topRightCorner(p, n - p), another = coupling.array() + 1.;
    c.check(build_block_symmetric(corner, coupling, complement) == build_block_symmetric(corner, coupling, complement) && !(build_block_symmetric(corner, coupling, complement) == build_block_symmetric(corner, another, complement)), "block-symmetric-equality", s);
    // grown once more: the block symmetric matrix is itself a solver
    if (n == 3 && p == 1) {
      const auto two = build_block_symmetric(Eigen::SerializableLDLT(MatrixXd(m.topLeftCorner(1, 1))), MatrixXd(m.block(0, 1, 1, 1)), MatrixXd(m.block(1, 1, 1, 1)));
      check_symmetric(c, two, m, 2, s + " nested");
    }
  } else if (solver == 1) {
    check_symmetric(c, DirectInverse(inverse(wide(a)).cast<double>()), m, p, s);
  } else {
    // a = o i^-1 o
    const MatrixXd o = a + 2. * MatrixXd::Identity(p, p);
    const MatrixXd inner = (wide(o) * inverse(wide(a)) * wide(o)).cast<double>();
    check_symmetric(c, ExplainedCovariance(o, inner), m, p, s);
  }
}
MC_SCENARIO(block_symmetric_blocks) { // with a block diagonal corner
  BlockDiagonal a;
  int p = 0;
  const int blocks = c.range(1, 3);
  for (int b = 0; b < blocks; ++b) {
    a.blocks.push_back(definite(c, c.range(1, 2)));
    p += static_cast<int>(a.blocks.back().rows());
  }
  const int q = c.range(1, 2);
  MatrixXd m = MatrixXd::Zero(p + q, p + q);
  m.topLeftCorner(p, p) = a.toDense();
  m.topRightCorner(p, q) = 0.1 * right_hand_side(p, q);
  m.bottomLeftCorner(q, p) = m.topRightCorner(p, q).transpose();
  m.bottomRightCorner(q, q) = 9. * MatrixXd::Identity(q, q) + MatrixXd::Constant(q, q, 0.5);
  const std::string s = "split " + text(m) + " at " + std::to_string(p);
  c << s;
  c.state(s);
  c.step();
  check_symmetric(c, a.ldlt(), m, p, s);
}

// S = A B^-1 A, solved without inverting B.
MC_SCENARIO(representations) {
  const int n = c.range(1, 3);
  const MatrixXd outer = definite(c, n);
  const MatrixXd inner = psd(c, n, {0., 1., 2.}, {0., 1., -1.}, false);
  const std::string s = "outer " + text(outer) + " inner " + text(inner);
  c << s;
  c.state(s);
  c.step();
  const LMat oi = inverse(wide(outer)), inv = oi * wide(inner) * oi;
  const MatrixXd rhs = right_hand_side(n, 2);
  const ExplainedCovariance e(outer, inner), f(Eigen::SerializableLDLT(outer), inner);
  for (const auto *x : {&e, &f}) {
    c.check(x->rows() == n && x->cols() == n, "explained-shape", s);
    same(c, x->solve(rhs), inv * wide(rhs), "explained-solve", s);
    same(c, x->solve(VectorXd(rhs.col(0))), inv * wide(rhs.col(0)), "explained-solve-vector", s);
  }
  c.check(e == f, "explained-equality", s);
  const DirectInverse d(inner);
  c.check(d.rows() == n && d.cols() == n, "direct-shape", s);
  same(c, d.solve(rhs), wide(inner) * wide(rhs), "direct-solve", s);
}

namespace {
template <typename QR> void check_qr(mc::Ctx &c, const QR &qr, const MatrixXd &b, const std::string &s) {
  const Index n = b.cols();
  const MatrixXd r = get_R(qr);
  const Eigen::PermutationMatrixX p = get_P(qr);
  c.check(r.rows() == n && r.cols() == n, "qr-shape", s);
  c.check(p.size() == n, "qr-permutation", s);
  std::set<Index> seen;
  for (Index i = 0; i < n; ++i) {
    seen.insert(p.indices()[i]);
    for (Index j = 0; j < i; ++j)
      c.check(r(i, j) == 0., "qr-triangular", s);
  }
  c.check(static_cast<Index>(seen.size()) == n && *seen.begin() == 0 && *seen.rbegin() == n - 1, "qr-permutation", s);
  const LMat gram = wide(b).transpose() * wide(b);
  const MatrixXd rp = r * p.transpose();
  same(c, rp.transpose() * rp, gram, "qr-gram", s);
  if (static_cast<double>(std::abs(gram.fullPivLu().determinant())) < 1e-6)
    return;
  const MatrixXd rhs = right_hand_side(static_cast<int>(n), 2);
  const LMat want = wide(rhs).transpose() * inverse(gram) * wide(rhs);
  const MatrixXd a = sqrt_solve(qr, rhs), bb = sqrt_solve(r, p, rhs);
  same(c, a.transpose() * a, want, "qr-sqrt-solve", s);
  same(c, bb.transpose() * bb, want, "qr-sqrt-solve-parts", s);
  same(c, rp.transpose() * bb, wide(rhs), "qr-sqrt-solve-root", s);
  const VectorXd v = rhs.col(1);
  same(c, sqrt_solve(qr, v), wide(a).col(1), "qr-sqrt-solve-vector", s);
}
} // namespace

// QR decompositions of every small matrix.
MC_SCENARIO(qr) {
  const int n = c.range(1, mc::tiered(2, 3)), extra = c.range(0, mc::tiered(2, 1)), kind = c.choose(3);
  MatrixXd b(n + extra, n);
  const std::vector<double> entries = n == 3 ? std::vector<double>{0., 1., -2.} : std::vector<double>{0., 1., -2., 4.};
  for (Index i = 0; i < b.rows(); ++i)
    for (Index j = 0; j < n; ++j)
      b(i, j) = c.pick(entries);
  const std::string s = "qr of " + text(b) + " kind " + std::to_string(kind);
  c << s;
  c.state(s);
  c.step();
  if (kind == 0) {
    check_qr(c, *DenseQRImplementation::compute(b, nullptr), b, s);
  } else {
    const auto pool = std::make_unique<ThreadPool>(2);
    const Eigen::SparseMatrix<double> sparse = b.sparseView();
    if (kind == 1) {
      check_qr(c, *SPQRImplementation::compute(b, pool.get()), b, s);
    } else {
      const auto q = SPQR_create(sparse);
      check_qr(c, *q, b, s);
    }
  }
}

// When the sparse decomposition takes a column for dependent.
MC_SCENARIO(pivot_threshold) {
  const int rows = c.range(1, 3), cols = c.range(1, 3);
  const Index limit = c.range(0, 4);
  const double coefficient = c.pick<double>({0.1, 20., 1.});
  const double scale = c.pick<double>({1., 0., 1e3});
  const MatrixXd m = scale * right_hand_side(rows, cols);
  const std::string s = "threshold of " + text(m) + " limit " + std::to_string(limit) + " coefficient " + std::to_string(coefficient);
  c << s;
  c.state(s);
  c.step();
  double norm = 0.;
  for (Index j = 0; j < m.cols(); ++j)
    norm = std::max(norm, m.col(j).norm());
  if (norm == 0.)
    norm = 1.;
  const double want = rows < limit || cols < limit ? 1e-15 : coefficient * (rows + cols) * norm * std::numeric_limits<double>::epsilon();
  c.close(SPQR_pivot_threshold(m, limit, coefficient), want, "pivot-threshold", s, 1e-12, 1e-300);
  const Eigen::SparseMatrix<double> sparse = m.sparseView();
  c.close(SPQR_pivot_threshold(sparse, limit, coefficient), want, "pivot-threshold-sparse", s, 1e-12, 1e-300);
}

namespace {
void check_stack(mc::Ctx &c, int blocks, int cols, int rows, const std::vector<MatrixXd> &parts, const std::vector<Eigen::Vector2d> &fixed, const std::vector<VectorXd> &vectors, const std::string &s) {
  LMat want(rows, cols), wanted(rows, 1), want_fixed(2 * blocks, 1);
  int at = 0;
  for (int b = 0; b < blocks; ++b) {
    const auto k = static_cast<std::size_t>(b);
    for (Index i = 0; i < parts[k].rows(); ++i) {
      for (Index j = 0; j < cols; ++j)
        want(at, j) = parts[k](i, j);
      wanted(at, 0) = vectors[k][i];
      ++at;
    }
    want_fixed(2 * b, 0) = b;
    want_fixed(2 * b + 1, 0) = b + 0.5;
  }
  same(c, vertical_stack(parts), want, "vertical-stack", s, 0.);
  same(c, vertical_stack(vectors), wanted, "vertical-stack-vectors", s, 0.);
  same(c, vertical_stack(fixed), want_fixed, "vertical-stack-fixed", s, 0.);
}
} // namespace

MC_SCENARIO(stack) {
  const int blocks = c.range(1, mc::tiered(3, 4)), cols = c.range(0, 3);
  std::vector<MatrixXd> parts;
  std::vector<Eigen::Vector2d> fixed;
  std::vector<VectorXd> vectors;
  std::string s = "stack of " + std::to_string(cols) + " columns, rows";
  int rows = 0;
  for (int b = 0; b < blocks; ++b) {
    const int r = c.range(0, 3);
    parts.push_back((b + 1.) * right_hand_side(r, cols));
    vectors.push_back((b + 1.) * right_hand_side(r, 1).col(0));
    fixed.push_back(Eigen::Vector2d(b, b + 0.5));
    rows += r;
    s += " " + std::to_string(r);
  }
  c << s;
  c.state(s);
  c.step();
  check_stack(c, blocks, cols, rows, parts, fixed, vectors, s);
}

// Solves with what is left of a semi-definite matrix above a threshold.
MC_SCENARIO(truncated) {
  const int n = c.range(1, 3);
  // an orthogonal basis (a reflection), and eigen values
  const int direction = c.choose(3);
  LMat h = LMat::Ones(n, 1);
  for (int i = 0; i < n; ++i)
    h(i, 0) = direction == 0 ? (i == 0 ? 1.L : 0.L) : direction == 1 ? 1.L + i : 2.L - 3.L * i;
  const LMat basis = LMat::Identity(n, n) - 2.L / (h.transpose() * h)(0, 0) * h * h.transpose();
  std::vector<double> values;
  std::string s = "eigen values";
  for (int i = 0; i < n; ++i) {
    values.push_back(c.pick<double>({0., 1e-12, 0.5, 2., 7.}));
    s += " " + std::to_string(1e6 * values.back()) + "e-6";
  }
  const double threshold = c.pick<double>({-1., 0.1, 1., 100.});
  s += " direction " + std::to_string(direction) + " threshold " + std::to_string(threshold);
  c << s;
  c.state(s);
  c.step();
  LMat a = LMat::Zero(n, n), inv = a;
  for (int i = 0; i < n; ++i) {
    const double v = values[static_cast<std::size_t>(i)];
    a += v * basis.col(i) * basis.col(i).transpose();
    if (v >= (threshold < 0. ? 1e-8 : threshold))
      inv += 1.L / v * basis.col(i) * basis.col(i).transpose();
  }
  const Eigen::SelfAdjointEigenSolver<MatrixXd> evd(MatrixXd(a.cast<double>()));
  const MatrixXd rhs = right_hand_side(n, 2);
  const VectorXd v = rhs.col(1);
  same(c, threshold < 0. ? truncated_psd_solve(evd, rhs) : truncated_psd_solve(evd, rhs, threshold), inv * wide(rhs), "truncated-solve", s);
  same(c, threshold < 0. ? truncated_psd_solve(evd, v) : truncated_psd_solve(evd, v, threshold), inv * wide(v), "truncated-solve-vector", s);
}

// Operations on grouped blocks.
static void blocks_of(mc::Ctx &c, int groups, int rows, int cols) {
  Grouped<int, MatrixXd> lhs, rhs, across;
  Grouped<int, Eigen::SerializableLDLT> solvers;
  LMat left(rows, 0), product = LMat::Zero(rows, cols), inner = LMat::Zero(rows, cols), sum = LMat::Zero(rows, cols);
  std::string s = std::to_string(rows) + "x" + std::to_string(cols) + " groups";
  std::map<int, LMat> solved, difference;
  for (int g = 0; g < groups; ++g) {
    const int key = 10 - 3 * g, inside = groups > 3 ? 1 + (g * g + 1) % 4 : c.range(1, 3);
    const MatrixXd l = (g + 1.) * right_hand_side(rows, inside), r = right_hand_side(inside, cols).array() - g;
    MatrixXd d = MatrixXd::Identity(inside, inside) * (inside + 0.5 * (g % 5));
    if (groups > 3)
      d.array() += 0.5;
    else
      d = definite(c, inside);
    lhs.emplace(key, MatrixXd(l));
    across.emplace(key, MatrixXd(l.transpose()));
    rhs.emplace(key, r);
    solvers.emplace(key, Eigen::SerializableLDLT(d));
    product += wide(l) * wide(r);
    solved[key] = inverse(wide(d)) * wide(r);
    difference[key] = wide(2. * r) - wide(r);
    s += " " + std::to_string(inside);
  }
  c << s;
  c.state(s);
  c.step();
  same(c, block_inner_product(across, rhs), product, "block-inner-product", s);
  const auto times = [](const MatrixXd &x, const MatrixXd &y) { return MatrixXd(x * y); };
  same(c, block_accumulate(lhs, rhs, times), product, "block-accumulate", s);
  same(c, block_product(lhs, rhs), product, "block-product", s);
  const auto x = block_diag_solve(solvers, rhs);
  Grouped<int, MatrixXd> twice;
  std::vector<MatrixXd> terms;
  Grouped<int, MatrixXd> grouped_terms;
  for (const auto &pair : rhs) {
    twice.emplace(pair.first, MatrixXd(2. * pair.second));
    terms.push_back(lhs.at(pair.first) * pair.second);
    grouped_terms.emplace(pair.first, terms.back());
  }
  same(c, block_sum(terms), product, "block-sum", s);
  same(c, block_sum(grouped_terms), product, "block-sum-grouped", s);
  const auto y = block_subtract(twice, rhs);
  c.check(x.size() == rhs.size() && y.size() == rhs.size(), "grouped-blocks-size", s);
  for (const auto &pair : solved) {
    same(c, x.at(pair.first), pair.second, "block-diag-solve", s);
    same(c, y.at(pair.first), difference[pair.first], "block-subtract", s);
  }
}
MC_SCENARIO(grouped_blocks) {
  const int groups = c.range(1, 3), rows = c.range(1, 2), cols = c.range(1, 2);
  blocks_of(c, groups, rows, cols);
}
MC_SCENARIO(many_grouped_blocks) {
  const int groups = c.pick({4, 5, 8, 9, 16, 17, 33}), rows = c.pick({1, 3, 7}), cols = c.pick({1, 4, 9});
  blocks_of(c, groups, rows, cols);
}

// Printed eigen directions are those of the matrix, in order.
MC_SCENARIO(eigen_directions) {
  const int n = c.range(1, 3), count = c.range(0, n), small = c.flip();
  const auto order = c.permutation(static_cast<std::size_t>(n));
  const double threshold = c.pick<double>({1e-3, 0.6});
  const int direction = c.choose(2);
  MatrixXd h = MatrixXd::Zero(n, 1);
  for (int i = 0; i < n; ++i)
    h(i, 0) = direction == 0 ? (i == 0 ? 1. : 0.) : 1. + 0.75 * i * i;
  const MatrixXd basis = MatrixXd::Identity(n, n) - 2. / h.squaredNorm() * h * h.transpose();
  MatrixXd m = MatrixXd::Zero(n, n);
  std::vector<std::string> names;
  for (int i = 0; i < n; ++i) {
    const double value = 1. + 2. * static_cast<double>(order[static_cast<std::size_t>(i)]);
    m += value * basis.col(i) * basis.col(i).transpose();
    names.push_back(std::string("f") + std::to_string(i));
  }
  const std::string s = "directions of " + text(m) + " count " + std::to_string(count) + (small ? " small" : " large") + " threshold " + std::to_string(threshold);
  c << s;
  c.state(s);
  c.step();
  std::ostringstream out;
  out.precision(12);
  const auto flags = out.flags();
  if (small)
    print_small_eigen_directions(m, names, static_cast<std::size_t>(count), threshold, &out);
  else
    print_large_eigen_directions(m, names, static_cast<std::size_t>(count), threshold, &out);
  c.check(out.flags() == flags, "directions-flags", s);
  std::istringstream in(out.str());
  std::string word;
  double low = 0., high = 0.;
  in >> word >> low >> word >> high;
  c.close(low, 1., "directions-min", s, 1e-9, 1e-9);
  c.close(high, 2. * n - 1., "directions-max", s, 1e-9, 1e-9);
  std::string line;
  std::getline(in, line);
  int directions = 0;
  std::map<std::string, double> coefs;
  double last = 0.;
  const auto finish = [&]() {
    if (directions == 0)
      return;
    const int rank = small ? directions - 1 : n - directions;
    Index column = 0;
    for (int i = 0; i < n; ++i)
      if (static_cast<int>(order[static_cast<std::size_t>(i)]) == rank)
        column = i;
    std::size_t expected = 0;
    double sign = 0.;
    for (int i = 0; i < n; ++i) {
      const double want = basis(i, column);
      const std::string name = "f" + std::to_string(i);
      if (std::abs(want) > threshold) {
        ++expected;
        c.check(coefs.count(name) == 1, "directions-coefficients", s + " misses " + name + "\n" + out.str());
        if (coefs.count(name)) {
          if (sign == 0.)
            sign = want * coefs[name] > 0. ? 1. : -1.;
          c.close(coefs[name], sign * want, "directions-coefficients", s, 1e-9, 1e-9);
        }
      }
    }
    c.check(coefs.size() == expected, "directions-coefficients", s + "\n" + out.str());
  };
  while (std::getline(in, line)) {
    if (line.find("eigen value:") != std::string::npos) {
      finish();
      coefs.clear();
      ++directions;
      last = 1e9;
      const double value = std::stod(line.substr(line.find(':') + 1));
      c.close(value, small ? 2. * directions - 1. : 2. * (n - directions) + 1., "directions-values", s, 1e-9, 1e-9);
    } else {
      std::istringstream l(line);
      double coef = 0.;
      std::string name;
      l >> coef >> name;
      coefs[name] = coef;
      c.check(std::abs(coef) <= last * (1. + 1e-9), "directions-order", s + "\n" + out.str());
      last = std::abs(coef);
    }
  }
  finish();
  c.check(directions == count, "directions-count", s + "\n" + out.str());
}

// ---------------------------------------------------------------------------
// Larger, regular ones: where blocks fill, vector instructions start and tasks
// are shared out.
namespace {
MatrixXd regular(int n, int which) {
  MatrixXd m(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      switch (which) {
      case 0: // the largest first
        m(i, j) = (i == j ? 3. + 0.25 * (n - i) : 0.) + std::exp(-0.3 * std::abs(i - j));
        break;
      case 1: // the largest last, so that everything pivots
        m(i, j) = (i == j ? 2. + 0.5 * i : 0.) + std::exp(-0.1 * std::abs(i - j));
        break;
      case 2: // scattered
        m(i, j) = (i == j ? 2. + (7 * i) % 11 : 0.) + std::cos(0.7 * (i - j));
        break;
      case 4: // everything alike
        m(i, j) = (i == j ? 0.5 + 0.01 * i : 0.) + 1.;
        break;
      default: // zeros
        m(i, j) = i == j ? 2. + (5 * i) % 7 : std::abs(i - j) == 2 ? -0.75 : 0.;
      }
  return m;
}
std::string text(const char *what, const std::vector<int> &sizes, int which) {
  std::string s = what;
  for (int n : sizes)
    s += " " + std::to_string(n);
  return s + " kind " + std::to_string(which);
}
std::vector<int> block_sizes(mc::Ctx &c) {
  return c.pick<std::vector<int>>({{4, 4}, {1, 1, 1, 1, 1}, {3, 1, 4, 1, 5}, {5, 4, 3, 2, 1}, {9, 1, 2}, {2, 2, 2, 2, 2, 2, 2, 2, 2}, {1, 8, 1, 16}, {33}, {1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1}});
}
} // namespace

MC_SCENARIO(large_ldlt) {
  const int n = c.pick<int>({4, 5, 7, 8, 9, 15, 16, 17, 33}), which = c.choose(5);
  const std::string s = text("ldlt", {n}, which);
  c << s;
  c.state(s);
  c.step();
  const MatrixXd m = regular(n, which);
  check_ldlt(c, Eigen::SerializableLDLT(m), m, s);
  MatrixXd larger = m;
  larger(n - 1, n - 1) += 0.5;
  c.check(Eigen::SerializableLDLT(m) == Eigen::SerializableLDLT(m) && !(Eigen::SerializableLDLT(m) == Eigen::SerializableLDLT(larger)), "ldlt-equality", s);
}

// Scaling a matrix by a power of four scales everything exactly, however small
// or large it becomes: nothing is cut at an absolute size.
MC_SCENARIO(scaled_ldlt) {
  const int n = c.pick<int>({1, 2, 5, 9}), which = c.choose(5), power = c.pick<int>({-100, -40, -10, 10, 40, 100});
  const std::string s = text("scaled by four to the power", {power, n}, which);
  c << s;
  c.state(s);
  c.step();
  const MatrixXd m = regular(n, which);
  const double root = std::ldexp(1., power), scale = root * root;
  const Eigen::SerializableLDLT f(m), g(scale * m);
  const auto scaled = [&](const MatrixXd &got, const MatrixXd &want, double by, const char *key) {
    c.check(got.rows() == want.rows() && got.cols() == want.cols(), key, s + " shape");
    if (got.rows() != want.rows() || got.cols() != want.cols())
      return;
    const double size = want.size() ? want.cwiseAbs().maxCoeff() : 0.;
    for (Index i = 0; i < want.rows(); ++i)
      for (Index j = 0; j < want.cols(); ++j)
        c.close(got(i, j) / by / size, want(i, j) / size, key, s, 1e-10, 1e-12);
  };
  const MatrixXd rhs = right_hand_side(n, 2);
  scaled(g.solve(rhs), f.solve(rhs), 1. / scale, "scaled-solve");
  scaled(g.sqrt_solve(rhs), f.sqrt_solve(rhs), 1. / root, "scaled-sqrt-solve");
  scaled(g.sqrt_product(rhs), f.sqrt_product(rhs), root, "scaled-sqrt-product");
  scaled(g.sqrt_transpose(), f.sqrt_transpose(), root, "scaled-sqrt-transpose");
  scaled(g.sqrt_transpose_solve(rhs), f.sqrt_transpose_solve(rhs), 1. / root, "scaled-sqrt-transpose-solve");
  scaled(g.inverse_diagonal(), f.inverse_diagonal(), 1. / scale, "scaled-inverse-diagonal");
  std::vector<std::vector<std::size_t>> blocks(1);
  for (int i = 0; i < n; ++i)
    blocks[0].push_back(static_cast<std::size_t>(n - 1 - i));
  scaled(g.inverse_blocks(blocks)[0], f.inverse_blocks(blocks)[0], 1. / scale, "scaled-inverse-blocks");
  c.close(g.log_determinant(), f.log_determinant() + 2. * power * n * std::log(2.), "scaled-log-determinant", s, 1e-11, 1e-9);
  c.close(g.rcond(), f.rcond(), "scaled-rcond", s);
  c.check(g.is_positive_definite() == f.is_positive_definite(), "scaled-definite", s);
  BlockDiagonal a, b;
  a.blocks = {m, 2. * m};
  b.blocks = {scale * m, 2. * scale * m};
  const MatrixXd tall = right_hand_side(2 * n, 2);
  scaled(b.ldlt().solve(tall), a.ldlt().solve(tall), 1. / scale, "scaled-block-solve");
  scaled(b.ldlt().sqrt_solve(tall), a.ldlt().sqrt_solve(tall), 1. / root, "scaled-block-sqrt-solve");
  const MatrixXd border = 0.05 * right_hand_side(n, 2);
  const MatrixXd corner = 4. * MatrixXd::Identity(2, 2);
  const MatrixXd bordered = right_hand_side(n + 2, 2);
  scaled(build_block_symmetric(g, MatrixXd(scale * border), MatrixXd(scale * corner)).solve(bordered), build_block_symmetric(f, border, corner).solve(bordered), 1. / scale, "scaled-block-symmetric");
  scaled(ExplainedCovariance(scale * m, scale * m).solve(rhs), ExplainedCovariance(m, m).solve(rhs), 1. / scale, "scaled-explained");
}

MC_SCENARIO(large_inverse_blocks) {
  const int n = c.pick<int>({5, 8, 9, 17}), which = c.choose(5), every = c.range(1, 6), how = c.choose(4);
  const std::string s = text("blocks of the inverse", {n, every, how}, which);
  c << s;
  c.state(s);
  c.step();
  std::vector<std::vector<std::size_t>> blocks;
  for (int first = 0; first < n; ++first) {
    std::vector<std::size_t> b;
    if (how == 0 || how == 1) { // runs: folds of a dataset
      if (first % every)
        continue;
      for (int i = first; i < std::min(n, first + every); ++i)
        b.push_back(static_cast<std::size_t>(i));
    } else if (how == 2) { // strided
      if (first >= every)
        continue;
      for (int i = first; i < n; i += every)
        b.push_back(static_cast<std::size_t>(i));
    } else { // overlapping
      for (int i = 0; i < std::min(n, every); ++i)
        b.push_back(static_cast<std::size_t>((first + 3 * i) % n));
      if (std::set<std::size_t>(b.begin(), b.end()).size() != b.size())
        continue;
    }
    if (how == 1)
      std::reverse(b.begin(), b.end());
    blocks.push_back(b);
  }
  check_inverse_blocks(c, regular(n, which), blocks, s);
}

MC_SCENARIO(large_block_diagonal) {
  const std::vector<int> sizes = block_sizes(c);
  const int which = c.choose(5);
  const std::string s = text("block diagonal", sizes, which);
  c << s;
  c.state(s);
  c.step();
  BlockDiagonal m, other;
  int n = 0;
  for (std::size_t b = 0; b < sizes.size(); ++b) {
    m.blocks.push_back((1. + 0.5 * static_cast<double>(b % 3)) * regular(sizes[b], which));
    other.blocks.push_back(right_hand_side(sizes[b], sizes[b]) * (static_cast<double>(b) + 1.));
    n += sizes[b];
  }
  check_block_diagonal(c, m, other, n, s);
}

MC_SCENARIO(large_block_rectangular) {
  const std::vector<int> sizes = block_sizes(c);
  const int wide_first = c.choose(3);
  const std::string s = text("rectangular", sizes, wide_first);
  c << s;
  c.state(s);
  c.step();
  BlockDiagonal m, other;
  int rows = 0, cols = 0;
  for (std::size_t b = 0; b < sizes.size(); ++b) {
    const int r = sizes[b], k = wide_first == 2 ? sizes[b] : (static_cast<int>(b) % 2 == wide_first) ? sizes[b] + 2 : std::max(1, sizes[b] - 1);
    m.blocks.push_back(right_hand_side(r, k) * (static_cast<double>(b) + 1.));
    other.blocks.push_back(right_hand_side(r, k).array() + static_cast<double>(b));
    rows += r;
    cols += k;
  }
  check_block_rectangular(c, m, other, rows, cols, s);
}

MC_SCENARIO(large_block_symmetric) {
  const int n = c.pick<int>({4, 6, 9, 17}), which = c.choose(5), solver = c.choose(3), split = c.choose(4);
  const int p = split == 0 ? 1 : split == 1 ? n / 2 : split == 2 ? n - 2 : n - 1;
  const std::string s = text("block symmetric", {n, p, solver}, which);
  c << s;
  c.state(s);
  c.step();
  const MatrixXd m = regular(n, which);
  const MatrixXd a = m.topLeftCorner(p, p);
  if (solver == 0) {
    check_symmetric(c, Eigen::SerializableLDLT(a), m, p, s);
    // grown one at a time: conditioning again on what was conditioned on
    if (p >= 2) {
      const int first = p / 2;
      const auto two = build_block_symmetric(Eigen::SerializableLDLT(MatrixXd(m.topLeftCorner(first, first))), MatrixXd(m.block(0, first, first, p - first)), MatrixXd(m.block(first, first, p - first, p - first)));
      check_symmetric(c, two, m, p, s + " nested");
    }
  } else if (solver == 1) {
    check_symmetric(c, DirectInverse(inverse(wide(a)).cast<double>()), m, p, s);
  } else {
    const MatrixXd o = a + 2. * MatrixXd::Identity(p, p);
    check_symmetric(c, ExplainedCovariance(o, MatrixXd((wide(o) * inverse(wide(a)) * wide(o)).cast<double>())), m, p, s);
  }
}

MC_SCENARIO(large_qr) {
  const int n = c.pick<int>({3, 4, 6, 9, 16}), extra = c.pick<int>({0, 1, 4, 12}), kind = c.choose(3), which = c.choose(5);
  const std::string s = text("qr", {n, extra, kind}, which);
  c << s;
  c.state(s);
  c.step();
  MatrixXd b(n + extra, n);
  b.topRows(n) = regular(n, which);
  for (int i = 0; i < extra; ++i)
    for (int j = 0; j < n; ++j)
      b(n + i, j) = which == 3 ? ((i + 2 * j) % 3 == 0 ? 1. + i : 0.) : std::sin(1. + i * 0.4 + j * 1.7) * (1. + i);
  const auto pool = std::make_unique<ThreadPool>(2);
  if (kind == 0)
    check_qr(c, *DenseQRImplementation::compute(b, nullptr), b, s);
  else if (kind == 1)
    check_qr(c, *SPQRImplementation::compute(b, pool.get()), b, s);
  else
    check_qr(c, *SPQR_create(Eigen::SparseMatrix<double>(b.sparseView())), b, s);
}

MC_SCENARIO(large_stack) {
  const std::vector<int> sizes = block_sizes(c);
  const int cols = c.pick<int>({1, 4, 9});
  const std::string s = text("stack", sizes, cols);
  c << s;
  c.state(s);
  c.step();
  std::vector<MatrixXd> parts;
  std::vector<Eigen::Vector2d> fixed;
  std::vector<VectorXd> vectors;
  int rows = 0;
  for (std::size_t b = 0; b < sizes.size(); ++b) {
    const double k = static_cast<double>(b);
    parts.push_back((k + 1.) * right_hand_side(sizes[b], cols));
    vectors.push_back((k + 1.) * right_hand_side(sizes[b], 1).col(0));
    fixed.push_back(Eigen::Vector2d(k, k + 0.5));
    rows += sizes[b];
  }
  check_stack(c, static_cast<int>(sizes.size()), cols, rows, parts, fixed, vectors, s);
}

MC_SCENARIO(large_truncated) {
  const int n = c.pick<int>({4, 8, 9, 17}), zeros = c.range(0, 4), direction = c.choose(2);
  const double threshold = c.pick<double>({-1., 0.1, 1., 2.75, 100.});
  const std::string s = text("truncated", {n, zeros}, direction) + " threshold " + std::to_string(threshold);
  c << s;
  c.state(s);
  c.step();
  LMat h = LMat::Ones(n, 1);
  for (int i = 0; i < n; ++i)
    h(i, 0) = direction ? 1.L + i : 1.L;
  const LMat basis = LMat::Identity(n, n) - 2.L / (h.transpose() * h)(0, 0) * h * h.transpose();
  LMat a = LMat::Zero(n, n), inv = a;
  for (int i = 0; i < n; ++i) {
    const double v = i < zeros ? 0. : 0.05 + 0.5 * ((i * 5) % n);
    a += v * basis.col(i) * basis.col(i).transpose();
    if (v >= (threshold < 0. ? 1e-8 : threshold))
      inv += 1.L / v * basis.col(i) * basis.col(i).transpose();
  }
  const Eigen::SelfAdjointEigenSolver<MatrixXd> evd(MatrixXd(a.cast<double>()));
  const MatrixXd rhs = right_hand_side(n, 3);
  const VectorXd v = rhs.col(1);
  same(c, threshold < 0. ? truncated_psd_solve(evd, rhs) : truncated_psd_solve(evd, rhs, threshold), inv * wide(rhs), "truncated-solve", s);
  same(c, threshold < 0. ? truncated_psd_solve(evd, v) : truncated_psd_solve(evd, v, threshold), inv * wide(v), "truncated-solve-vector", s);
}
