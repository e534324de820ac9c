MX = 'tachyon/math/matrix/'
seed('C18-wrap', 'C18', [(MX + 'matrix_utils.h', '''    return base::CreateVector(matrix.cols(), [row, &matrix](size_t col) {
      return PackedField::From([row, col, &matrix](size_t i) {
        return matrix((row + i) % matrix.rows(), col);
''', '''    return base::CreateVector(matrix.cols(), [row, &matrix](size_t col) {
      return PackedField::From([row, col, &matrix](size_t i) {
        size_t r = row + i;
        if (r >= static_cast<size_t>(matrix.rows())) r -= row + 1;
        return matrix(r, col);
''')], 'a pack that wraps around and does not start in the last row but one', 'the lanes after the end hold other rows', '''#include "tachyon/math/matrix/matrix_utils.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
using namespace tachyon; using namespace tachyon::math;
using F = BabyBear;
struct P { F v[4]; template <typename C> static P From(C c) { P p; for (size_t i = 0; i < 4; ++i) p.v[i] = c(i); return p; } };
int main() {
  F::Init();
  for (size_t r0 = 0; r0 < 3; ++r0) {
    RowMajorMatrix<F> m(3, 1);
    for (int i = 0; i < 3; ++i) m(i, 0) = F(i + 1);
    auto v = PackRowVertically<P>(m, r0);
    for (size_t i = 0; i < 4; ++i) if (v[0].v[i] != F((r0 + i) % 3 + 1)) return 1;
  }
  return 0;
}
''', stubs=True)
seed('C18-csr-sort', 'C18', [(MX + 'sparse/sparse_matrix.h', '''  void Sort() {
    for (size_t i = 0; i < row_ptrs_.size(); ++i) {
      if (i != row_ptrs_.size() - 1) {
        base::ranges::sort(elements_.begin() + row_ptrs_[i],
''', '''  void Sort() {
    for (size_t i = 0; i + 1 < row_ptrs_.size(); ++i) {
      if (row_ptrs_[i + 1] < elements_.size()) {
        base::ranges::sort(elements_.begin() + row_ptrs_[i],
''')], 'an unsorted last row', 'the last row is not sorted', '''#include "tachyon/math/matrix/sparse/sparse_matrix.h"
#include <numeric>
#include <sstream>
using namespace tachyon::math;
int main() {
  CSRSparseMatrix<int> m({{1, 4}, {0, 5}, {3, 1}, {2, 7}}, {0, 2, 4});
  m.Sort();
  return m.IsSorted() ? 0 : 1;
}
''', stubs=True)
seed('C18-circle-alias', 'C18', [('tachyon/math/circle/affine_point.h', '''    return *this = {x_ * other.x_ - y_ * other.y_,
                    x_ * other.y_ + y_ * other.x_};
''', '''    BaseField x = x_ * other.x_ - y_ * other.y_;
    y_ *= other.x_;
    y_ += x_ * other.y_;
    x_ = std::move(x);
    return *this;
''')], 'a point added to itself in place', 'p += p is not 2p', '''#include "tachyon/math/circle/m31/g1.h"
using namespace tachyon::math;
using P = m31::G1AffinePoint;
int main() {
  P::Curve::Init();
  P p = P::Generator(), q = p.Double(), r = p + q;
  q += p;
  if (q != r) return 2;
  q += q;
  return q == r.Double() ? 0 : 1;
}
''', stubs=True)
seed('C18-rat-alias', 'C18', [('tachyon/math/base/rational_field.h', '''    numerator_ =
        numerator_ * other.denominator_ + other.numerator_ * denominator_;
    denominator_ *= other.denominator_;
''', '''    numerator_ *= other.denominator_;
    numerator_ += other.numerator_ * denominator_;
    denominator_ *= other.denominator_;
''')], 'a fraction added to itself in place', 'f += f is not 2f', '''#include "tachyon/math/base/rational_field.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
using namespace tachyon::math;
using R = RationalField<BabyBear>;
int main() {
  BabyBear::Init();
  R r(BabyBear(3), BabyBear(5)), s(BabyBear(2), BabyBear(7)), t = r;
  t += s;
  if (t != r + s) return 2;
  R u = r;
  u += u;
  return u == r.Double() ? 0 : 1;
}
''', stubs=True)
