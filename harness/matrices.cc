// Dense and sparse matrices, packings, rational numbers and circle points over
// opaque fields. Nothing here is ever executed.
#define EIGEN_DONT_VECTORIZE
#define EIGEN_MAX_ALIGN_BYTES 0
#include "abstract_prime_field.h"

#include <numeric>
#include <sstream>
#include <vector>

#include "tachyon/math/finite_fields/extended_packed_field_traits_forward.h"
#include "tachyon/math/finite_fields/extension_field_base.h"
#include "tachyon/math/finite_fields/extension_field_traits_forward.h"
#include "tachyon/math/finite_fields/packed_field_traits_forward.h"

namespace verif {
using namespace tachyon;
using namespace tachyon::math;

template <size_t L>
struct LCfg : PFConfigBase {
  constexpr static size_t kLanes = L;
};
template <size_t L>
using FL = PFT<LCfg<L>>;
using F = FL<1>;

// lanes of opaque elements
template <size_t L>
struct PK {
  constexpr static size_t N = L;
  FL<L> l[L];
  PK() = default;
  template <typename Callback>
  static PK From(Callback c) {
    PK r;
    for (size_t i = 0; i < L; ++i) r.l[i] = c(i);
    return r;
  }
  FL<L>& operator[](size_t i) { return l[i]; }
  const FL<L>& operator[](size_t i) const { return l[i]; }
};

template <size_t L>
struct EX : ExtensionFieldBase<EX<L>> {
  using BaseField = FL<L>;
  using BasePrimeField = FL<L>;
  constexpr static uint32_t kDegreeOverBasePrimeField = 2;
  FL<L> c[2];
  EX() = default;
  EX(const FL<L>& a, const FL<L>& b) : c{a, b} {}
  template <typename T, std::enable_if_t<std::is_integral_v<T>>* = nullptr>
  explicit EX(T v) : c{FL<L>(v), FL<L>(0)} {}
  static EX Zero() { return EX(FL<L>(0), FL<L>(0)); }
  static EX One() { return EX(FL<L>(1), FL<L>(0)); }
  static constexpr uint32_t ExtensionDegree() { return 2; }
  FL<L>& operator[](size_t i) { return c[i]; }
  const FL<L>& operator[](size_t i) const { return c[i]; }
  EX operator*(const EX& o) const {
    return EX(c[0] * o.c[0] + FL<L>::Param(2) * c[1] * o.c[1], c[0] * o.c[1] + c[1] * o.c[0]);
  }
  EX& operator*=(const EX& o) { return *this = *this * o; }
  EX operator+(const EX& o) const { return EX(c[0] + o.c[0], c[1] + o.c[1]); }
  EX& operator+=(const EX& o) { return *this = *this + o; }
};
template <size_t L>
struct EP {
  PK<L> c[2];
  static EP Zero() { return EP(); }
  PK<L>& operator[](size_t i) { return c[i]; }
  const PK<L>& operator[](size_t i) const { return c[i]; }
  EP operator*(const EP& o) const {
    EP r;
    for (size_t i = 0; i < L; ++i) {
      r.c[0].l[i] = c[0].l[i] * o.c[0].l[i] + FL<L>::Param(2) * c[1].l[i] * o.c[1].l[i];
      r.c[1].l[i] = c[0].l[i] * o.c[1].l[i] + c[1].l[i] * o.c[0].l[i];
    }
    return r;
  }
  EP operator*(const PK<L>& o) const {
    EP r;
    for (size_t i = 0; i < L; ++i)
      for (size_t j = 0; j < 2; ++j) r.c[j].l[i] = c[j].l[i] * o.l[i];
    return r;
  }
  EP& operator+=(const EP& o) {
    for (size_t i = 0; i < L; ++i)
      for (size_t j = 0; j < 2; ++j) c[j].l[i] = c[j].l[i] + o.c[j].l[i];
    return *this;
  }
};
}  // namespace verif

namespace tachyon::math {
template <>
struct PackedFieldTraits<verif::FL<1>> {
  using PackedField = verif::PK<1>;
};
template <>
struct PackedFieldTraits<verif::FL<2>> {
  using PackedField = verif::PK<2>;
};
template <>
struct PackedFieldTraits<verif::FL<4>> {
  using PackedField = verif::PK<4>;
};
template <size_t L>
struct FiniteFieldTraits<verif::PK<L>> {
  static constexpr bool kIsFiniteField = true;
  static constexpr bool kIsPrimeField = false;
  static constexpr bool kIsPackedPrimeField = true;
  static constexpr bool kIsExtensionField = false;
  using PrimeField = verif::FL<L>;
};
template <size_t L>
struct FiniteFieldTraits<verif::EX<L>> {
  static constexpr bool kIsFiniteField = true;
  static constexpr bool kIsPrimeField = false;
  static constexpr bool kIsPackedPrimeField = false;
  static constexpr bool kIsExtensionField = true;
};
template <size_t L>
struct ExtensionFieldTraits<verif::EX<L>> {
  constexpr static uint32_t kDegreeOverBasePrimeField = 2;
  constexpr static uint32_t kDegreeOverBaseField = 2;
  using BaseField = verif::FL<L>;
  using BasePrimeField = verif::FL<L>;
};
template <size_t L>
struct ExtendedPackedFieldTraits<verif::EX<L>> {
  constexpr static bool kIsExtendedPackedField = false;
  using ExtendedPackedField = verif::EP<L>;
};
}  // namespace tachyon::math

#include "tachyon/base/bits.cc"
#include "tachyon/math/base/rational_field.h"
#include "tachyon/math/circle/affine_point.h"
#include "tachyon/math/circle/circle.h"
#include "tachyon/math/matrix/matrix_operations.h"
#include "tachyon/math/matrix/matrix_types.h"
#include "tachyon/math/matrix/matrix_utils.h"
#include "tachyon/math/matrix/prime_field_num_traits.h"
#include "tachyon/math/matrix/sparse/sparse_matrix.h"
#include "tachyon/math/finite_fields/prime_field_util.cc"

namespace verif {
struct Src {
  const uint64_t* p;
  F f() { return F::Raw(*p++); }
  template <size_t L>
  FL<L> fl() { return FL<L>::Raw(*p++); }
  uint64_t u() { return *p++; }
};
struct Put {
  uint64_t* p;
  template <typename C>
  void operator()(const PFT<C>& f) { *p++ = f.raw(); }
  void u(uint64_t v) { *p++ = v; }
};
template <typename M>
M Mat(Src& in, size_t r, size_t c) {
  M m(r, c);
  for (size_t i = 0; i < r; ++i)
    for (size_t j = 0; j < c; ++j) m(i, j) = M::Scalar::Raw(in.u());
  return m;
}
template <typename M>
void PutM(Put& o, const M& m) {
  o.u(m.rows());
  o.u(m.cols());
  for (Eigen::Index i = 0; i < m.rows(); ++i)
    for (Eigen::Index j = 0; j < m.cols(); ++j) o(m(i, j));
}

template <size_t L>
void Dot(const uint64_t* in, uint64_t* out, uint64_t rows, uint64_t cols) {
  Src s{in};
  Put o{out};
  EX<L> b;
  b.c[0] = s.template fl<L>();
  b.c[1] = s.template fl<L>();
  auto m = Mat<RowMajorMatrix<FL<L>>>(s, rows, cols);
  auto r = DotExtPowers(m, b);
  o.u(r.size());
  for (auto& e : r) {
    o(e.c[0]);
    o(e.c[1]);
  }
}
template <size_t L>
void Pack(const uint64_t* in, uint64_t* out, uint64_t rows, uint64_t cols, uint64_t row, uint64_t mode) {
  Src s{in};
  Put o{out};
  std::vector<PK<L>> r;
  if (mode == 0) {
    auto m = Mat<RowMajorMatrix<FL<L>>>(s, rows, cols);
    r = PackRowHorizontallyPadded(m.row(row));
  } else if (mode == 1) {
    auto m = Mat<RowMajorMatrix<FL<L>>>(s, rows, cols);
    r = PackRowVertically<PK<L>>(m, row);
  } else {
    RowMajorMatrix<EX<L>> m(rows, cols);
    for (size_t i = 0; i < rows; ++i)
      for (size_t j = 0; j < cols; ++j) {
        m(i, j).c[0] = s.template fl<L>();
        m(i, j).c[1] = s.template fl<L>();
      }
    r = PackRowVertically<PK<L>>(m, row);
  }
  o.u(r.size());
  for (auto& e : r)
    for (size_t i = 0; i < L; ++i) o(e.l[i]);
}

using ELL = ELLSparseMatrix<F>;
using CSR = CSRSparseMatrix<F>;
void PutELL(Put& o, const ELL& e) {
  auto d = e.GetData();
  auto c = e.GetColumnIndices();
  o.u(d.size());
  for (size_t i = 0; i < d.size(); ++i) {
    o.u(d[i].size());
    for (size_t j = 0; j < d[i].size(); ++j) {
      o.u(c[i][j]);
      o(d[i][j]);
    }
  }
  o.u(e.MaxRows());
  o.u(e.MaxCols());
  o.u(e.NonZeros());
}
void PutCSR(Put& o, const CSR& e) {
  auto d = e.GetData();
  auto c = e.GetColumnIndices();
  o.u(d.size());
  for (size_t j = 0; j < d.size(); ++j) {
    o.u(c[j]);
    o(d[j]);
  }
  o.u(e.row_ptrs().size());
  for (auto p : e.row_ptrs()) o.u(p);
  o.u(e.MaxRows());
  o.u(e.MaxCols());
  o.u(e.NonZeros());
}
template <typename M>
void PutEigen(Put& o, const M& m) {
  o.u(m.rows());
  o.u(m.cols());
  o.u(m.nonZeros());
  for (Eigen::Index k = 0; k < m.outerSize(); ++k)
    for (typename M::InnerIterator it(m, k); it; ++it) {
      o.u(it.row());
      o.u(it.col());
      o(it.value());
    }
}
// rows, then per row its length and (column, value) in the given order
ELL ReadELL(Src& s) {
  size_t n = s.u();
  std::vector<ELL::Elements> l(n);
  for (size_t i = 0; i < n; ++i) {
    size_t k = s.u();
    for (size_t j = 0; j < k; ++j) {
      size_t c = s.u();
      l[i].push_back({c, s.f()});
    }
  }
  return ELL(std::move(l));
}
CSR ReadCSR(Src& s) {
  size_t n = s.u();
  CSR::Elements l;
  std::vector<size_t> p{0};
  for (size_t i = 0; i < n; ++i) {
    size_t k = s.u();
    for (size_t j = 0; j < k; ++j) {
      size_t c = s.u();
      l.push_back({c, s.f()});
    }
    p.push_back(l.size());
  }
  return CSR(std::move(l), std::move(p));
}

using R = RationalField<F>;
R GetR(Src& s) {
  F a = s.f();
  F b = s.f();
  return R(a, b);
}
void PutR(Put& o, const R& r) {
  o(r.numerator());
  o(r.denominator());
}

struct CircCfg {
  using BaseField = F;
  using ScalarField = F;
  constexpr static Point2<F> kGenerator{F::Param(3), F::Param(4)};
  static void Init() {}
};
using CPoint = AffinePoint<Circle<CircCfg>>;
CPoint GetC(Src& s) {
  F a = s.f();
  F b = s.f();
  return CPoint(a, b);
}
void PutC(Put& o, const CPoint& p) {
  o(p.x());
  o(p.y());
}
}  // namespace verif

using namespace verif;
extern "C" {
void h_dot1(const uint64_t* in, uint64_t* o, uint64_t r, uint64_t c) { Dot<1>(in, o, r, c); }
void h_dot2(const uint64_t* in, uint64_t* o, uint64_t r, uint64_t c) { Dot<2>(in, o, r, c); }
void h_dot4(const uint64_t* in, uint64_t* o, uint64_t r, uint64_t c) { Dot<4>(in, o, r, c); }
void h_pack1(const uint64_t* in, uint64_t* o, uint64_t r, uint64_t c, uint64_t row, uint64_t mode) { Pack<1>(in, o, r, c, row, mode); }
void h_pack2(const uint64_t* in, uint64_t* o, uint64_t r, uint64_t c, uint64_t row, uint64_t mode) { Pack<2>(in, o, r, c, row, mode); }
void h_pack4(const uint64_t* in, uint64_t* o, uint64_t r, uint64_t c, uint64_t row, uint64_t mode) { Pack<4>(in, o, r, c, row, mode); }

void h_mv(const uint64_t* in, uint64_t* out, uint64_t r, uint64_t c, uint64_t mode) {
  Src s{in};
  Put o{out};
  auto put = [&](const Vector<F>& v) {
    o.u(v.size());
    for (Eigen::Index i = 0; i < v.size(); ++i) o(v[i]);
  };
  auto m = Mat<Matrix<F>>(s, r, c);
  if (mode < 2) {
    Vector<F> v(c);
    for (size_t i = 0; i < c; ++i) v[i] = s.f();
    put(mode == 0 ? MulMatVec(m, v) : MulMatVecSerial(m, v));
  } else if (mode < 4) {
    RowVector<F> v(c);
    for (size_t i = 0; i < c; ++i) v[i] = s.f();
    put(mode == 2 ? MulMatVec(m, v) : MulMatVecSerial(m, v));
  } else if (mode < 6) {
    auto w = Mat<Matrix<F>>(s, c, 2);
    put(mode == 4 ? MulMatVec(m, w.col(1)) : MulMatVecSerial(m, w.col(1)));
  } else {
    auto w = Mat<RowMajorMatrix<F>>(s, 2, c);
    put(mode == 6 ? MulMatVec(m, w.row(1)) : MulMatVecSerial(m, w.row(1)));
  }
}
void h_mm(const uint64_t* in, uint64_t* out, uint64_t r, uint64_t k, uint64_t k2, uint64_t c, uint64_t mode) {
  Src s{in};
  Put o{out};
  auto m = Mat<Matrix<F>>(s, r, k);
  auto m2 = Mat<RowMajorMatrix<F>>(s, k2, c);
  Matrix<F> x = mode ? MulMatMat(m, m2) : MulMatMatSerial(m, m2);
  PutM(o, x);
}
void h_rev(const uint64_t* in, uint64_t* out, uint64_t r, uint64_t c) {
  Src s{in};
  Put o{out};
  auto m = Mat<RowMajorMatrix<F>>(s, r, c);
  ReverseMatrixIndexBits(m);
  PutM(o, m);
}
void h_circ(const uint64_t* in, uint64_t* out, uint64_t n) {
  Src s{in};
  Put o{out};
  Vector<F> v(n);
  for (size_t i = 0; i < n; ++i) v[i] = s.f();
  Matrix<F> m = MakeCirculant(v);
  PutM(o, m);
}
void h_map(const uint64_t* in, uint64_t* out, uint64_t r, uint64_t c) {
  Src s{in};
  Put o{out};
  auto m = Mat<RowMajorMatrix<F>>(s, r, c);
  auto w = math::Map(m);
  PutM(o, w);
  w(r - 1, 0) = s.f();
  PutM(o, m);
  const auto& cm = m;
  PutM(o, math::Map(cm));
}
void h_split(const uint64_t* in, uint64_t* out, uint64_t r, uint64_t c, uint64_t n) {
  Src s{in};
  Put o{out};
  auto m = Mat<RowMajorMatrix<F>>(s, r, c);
  auto v = SplitMat(n, m);
  o.u(v.size());
  for (auto& b : v) PutM(o, b);
}
void h_ell(const uint64_t* in, uint64_t* out) {
  Src s{in};
  Put o{out};
  ELL e = ReadELL(s);
  o.u(e.IsSorted());
  e.Sort();
  o.u(e.IsSorted());
  PutELL(o, e);
  CSR c = e.ToCSR();
  PutCSR(o, c);
  PutELL(o, c.ToELL());
  PutEigen(o, e.ToEigenSparseMatrix());
  PutEigen(o, c.ToEigenSparseMatrix());
}
void h_csr(const uint64_t* in, uint64_t* out) {
  Src s{in};
  Put o{out};
  CSR c = ReadCSR(s);
  o.u(c.IsSorted());
  c.Sort();
  o.u(c.IsSorted());
  PutCSR(o, c);
  ELL e = ELL::FromCSR(c);
  PutELL(o, e);
  PutCSR(o, CSR::FromELL(e));
}
void h_eigen(const uint64_t* in, uint64_t* out, uint64_t rm, uint64_t rows, uint64_t cols) {
  Src s{in};
  Put o{out};
  size_t n = s.u();
  std::vector<Eigen::Triplet<F>> t;
  for (size_t i = 0; i < n; ++i) {
    int r = s.u();
    int c = s.u();
    t.push_back({r, c, s.f()});
  }
  if (rm) {
    Eigen::SparseMatrix<F, Eigen::RowMajor> m(rows, cols);
    m.setFromTriplets(t.begin(), t.end());
    PutELL(o, ELL::FromEigenSparseMatrix(m));
    PutCSR(o, CSR::FromEigenSparseMatrix(m));
  } else {
    Eigen::SparseMatrix<F> m(rows, cols);
    m.setFromTriplets(t.begin(), t.end());
    PutELL(o, ELL::FromEigenSparseMatrix(m));
    PutCSR(o, CSR::FromEigenSparseMatrix(m));
  }
}
// two matrices with the same layout of the first and given values
uint64_t h_elleq(const uint64_t* in, uint64_t* out) {
  Src s{in};
  ELL a = ReadELL(s);
  ELL b = ReadELL(s);
  CSR c = a.ToCSR();
  CSR d = b.ToCSR();
  out[0] = a == b;
  out[1] = a != b;
  out[2] = c == d;
  out[3] = c != d;
  return 0;
}

void h_rat(const uint64_t* in, uint64_t* out, uint64_t op) {
  Src s{in};
  Put o{out};
  R a = GetR(s);
  R b = GetR(s);
  R c = a;
  switch (op) {
    case 0:
      PutR(o, a + b);
      PutR(o, c += b);
      PutR(o, c);
      break;
    case 1:
      PutR(o, a - b);
      PutR(o, c -= b);
      PutR(o, c);
      break;
    case 2:
      PutR(o, a * b);
      PutR(o, c *= b);
      PutR(o, c);
      break;
    case 3: {
      auto q = a / b;
      o.u(q.has_value());
      if (q) PutR(o, *q);
      auto z = c /= b;
      o.u(z.has_value());
      if (z) PutR(o, **z);
      PutR(o, c);
      break;
    }
    case 4:
      PutR(o, a.Double());
      PutR(o, c.DoubleInPlace());
      PutR(o, c);
      break;
    case 5:
      PutR(o, a.Square());
      PutR(o, c.SquareInPlace());
      PutR(o, c);
      break;
    case 6:
      PutR(o, -a);
      PutR(o, c.NegateInPlace());
      PutR(o, c);
      break;
    case 7: {
      auto q = a.Inverse();
      o.u(q.has_value());
      if (q) PutR(o, *q);
      auto z = c.InverseInPlace();
      o.u(z.has_value());
      if (z) PutR(o, **z);
      PutR(o, c);
      break;
    }
    case 8:
      o.u(a.IsZero());
      break;
    case 9:
      o.u(a.IsOne());
      break;
    case 10:
      o.u(a.IsMinusOne());
      break;
    case 11:
      o.u(a == b);
      break;
    case 12:
      o.u(a != b);
      break;
    case 13:
      o(a.Evaluate());
      break;
    case 14:
      PutR(o, R::Zero());
      PutR(o, R::One());
      PutR(o, R::MinusOne());
      PutR(o, R::TwoInv());
      PutR(o, R(a.numerator()));
      PutR(o, R());
      break;
    case 15:
      o.u(a < b);
      o.u(a > b);
      o.u(a <= b);
      o.u(a >= b);
      break;
    case 16:
      c += c;
      PutR(o, c);
      c = a;
      c -= c;
      PutR(o, c);
      c = a;
      c *= c;
      PutR(o, c);
      break;
  }
}
void h_ratbatch(const uint64_t* in, uint64_t* out, uint64_t n, uint64_t m, uint64_t coeff) {
  Src s{in};
  Put o{out};
  std::vector<R> v;
  for (size_t i = 0; i < n; ++i) v.push_back(GetR(s));
  std::vector<F> r(m);
  F c = s.f();
  bool ok = coeff ? R::BatchEvaluate(v, &r, c) : R::BatchEvaluate(v, &r);
  o.u(ok);
  for (auto& x : r) o(x);
}
void h_circle(const uint64_t* in, uint64_t* out, uint64_t op) {
  Src s{in};
  Put o{out};
  CPoint a = GetC(s);
  CPoint b = GetC(s);
  CPoint c = a;
  switch (op) {
    case 0:
      PutC(o, a + b);
      PutC(o, c += b);
      PutC(o, c);
      break;
    case 1:
      PutC(o, a - b);
      PutC(o, c -= b);
      PutC(o, c);
      break;
    case 2:
      PutC(o, a.Double());
      PutC(o, c.DoubleInPlace());
      PutC(o, c);
      break;
    case 3:
      PutC(o, -a);
      PutC(o, c.NegateInPlace());
      PutC(o, c);
      PutC(o, a.Conjugate());
      PutC(o, a.Antipode());
      break;
    case 4:
      o.u(a.IsZero());
      break;
    case 5:
      o.u(a == b);
      o.u(a != b);
      break;
    case 6:
      o.u(a.IsOnCircle());
      break;
    case 7:
      PutC(o, CPoint::Zero());
      PutC(o, CPoint());
      break;
    case 8:
      PutC(o, CPoint::CreateChecked(a.x(), a.y()));
      break;
    case 9:
      c += c;
      PutC(o, c);
      c = a;
      c -= c;
      PutC(o, c);
      break;
  }
}
}
