BF = 'tachyon/math/finite_fields/binary_fields/'
DEMO = '''#include "tachyon/math/finite_fields/binary_fields/binary_fields.h"
using namespace tachyon::math;
template <typename F>
int Run() {
  using S = typename F::SubField;
  for (int i = 0; i < 40; ++i) {
    F a = F::Random(), b = F::Random();
    S s = S::Random();
    if (s.IsZero()) continue;
    F lo = F::Compose(s, S::Zero()), hi = F::Compose(S::Zero(), s);
    if (a * lo != lo * a || a * hi != hi * a) return 1;
    if (a * (b + lo) != a * b + a * lo) return 2;
    if (!(*lo.Inverse() * lo).IsOne() || !(*hi.Inverse() * hi).IsOne()) return 3;
  }
  return 0;
}
int main() { return Run<BinaryField16>() || Run<BinaryField32>() || Run<BinaryField64>() || Run<BinaryField128>(); }
'''
seed('C08-subfield-mul', 'C08', [(BF + 'binary_tower_operations.h', '''    SubField z0 = lhs0 * rhs0;
    SubField z1 = lhs1 * rhs1;
''', '''    SubField z0 = lhs0 * rhs0;
    // Multiplication by an element of the subfield.
    if (rhs1.IsZero()) return F::Compose(z0, lhs1);
    SubField z1 = lhs1 * rhs1;
''')], 'a right operand that lies in the subfield', 'the upper half is not scaled by the subfield element', DEMO)
seed('C08-inverse-shortcut', 'C08', [(BF + 'binary_tower_operations.h', '''    SubField x0x1a = x0 + BinaryTowerOperations<SubField>::MulByAlpha(x1);
    SubField delta = x0 * x0x1a + x1.Square();
''', '''    if (x0.IsZero() && !x1.IsZero()) {
      // (x₁X)⁻¹ needs only the inverse of x₁.
      return F::Compose(SubField::Zero(), *x1.Inverse());
    }
    SubField x0x1a = x0 + BinaryTowerOperations<SubField>::MulByAlpha(x1);
    SubField delta = x0 * x0x1a + x1.Square();
''')], 'an element whose lower half is zero', 'the inverse lacks its constant term', DEMO)
