MB = 'tachyon/math/base/'
seed('C07-shift-word', 'C07', [(MB + 'big_int.h', '''      while (n >= 64) {
        uint64_t t = 0;
        FOR_FROM_BIGGEST(i, 0, N) { std::swap(t, limbs[i]); }
        n -= 64;
      }
''', '''      while (n > 64) {
        uint64_t t = 0;
        FOR_FROM_BIGGEST(i, 0, N) { std::swap(t, limbs[i]); }
        n -= 64;
      }
      if (n == 64) {
        FOR_FROM_SMALLEST(i, 0, N) {
          limbs[N - 1 - i] = N - i < N ? limbs[N - i] : 0;
        }
        return *this;
      }
''')], 'a right shift by a positive multiple of 64 on four limbs', 'limbs are moved in the wrong order for whole-word shifts', r'''
#include "tachyon/math/base/big_int.h"
using namespace tachyon::math;
int main() {
  BigInt<4> a({1, 2, 3, 4});
  BigInt<4> b = a >> 128;
  return b == BigInt<4>({3, 4, 0, 0}) && (a >> 64) == BigInt<4>({2, 3, 4, 0}) ? 0 : 1;
}
''')
seed('C07-square-top', 'C07', [('tachyon/math/finite_fields/prime_field_fallback.h', '    r[2 * N - 1] = r[2 * N - 2] >> 63;\n', '    r[2 * N - 1] = 0;\n')],
     'squaring an element whose doubled cross products exceed the word (top limb near its maximum; secp256k1)', 'the top bit of the doubled cross products is dropped', r'''
#include "tachyon/math/elliptic_curves/secp/secp256k1/fr.h"
using namespace tachyon::math;
int main() {
  using F = secp256k1::Fr;
  F::Init();
  for (int i = 0; i < 2000; ++i) {
    F a = F::Random();
    if (a.Square() != a * a) return 1;
  }
  return 0;
}
''')
