B = 'tachyon/math/base/'
M = 'tachyon/math/elliptic_curves/msm/'
HEAD = '''#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/msm/fixed_base_msm.h"
#include "tachyon/math/elliptic_curves/msm/variable_base_msm.h"
using namespace tachyon; using namespace tachyon::math;
using F = bn254::Fr; using A = bn254::G1AffinePoint; using J = bn254::G1JacobianPoint;
'''
seed('C13-batch-inverse-zero', 'C13', [(B + 'groups.h', '''      } else {
        inverses[i] = G::Zero();
      }
''', '''      }
''')], 'a zero element and an output container that held nonzero values', 'the inverse of zero is whatever the output held before', HEAD + '''
int main() {
  F::Init();
  std::vector<F> in = {F(3), F(0), F(5)}, out(3, F(9));
  if (!F::BatchInverse(in, &out)) return 1;
  if (!out[1].IsZero() || !(out[0] * F(3)).IsOne() || !(out[2] * F(5)).IsOne()) return 1;
  return 0;
}
''', stubs=True)
seed('C13-unit-scalar-window', 'C13', [(M + 'algorithms/pippenger/pippenger.h', '''      if (scalar.IsOne()) {
''', '''      if (scalar[0] == 1) {
''')], 'unsigned digits and a scalar above 2^64 whose lowest limb is one', 'the upper limbs of such scalars are ignored', HEAD + '''
int main() {
  bn254::G1Curve::Init();
  std::vector<A> bases = {A::Generator(), A::Generator()};
  std::vector<F> s = {F(BigInt<4>({1, 2, 0, 0})), F(BigInt<4>({5, 0, 7, 0}))};
  Pippenger<A> p;
  p.SetUseMSMWindowNAForTesting(false);
  Pippenger<A>::Bucket r;
  if (!p.Run(bases.begin(), bases.end(), s.begin(), s.end(), &r)) return 1;
  return r.ToJacobian() == bases[0] * (s[0] + s[1]) ? 0 : 1;
}
''', stubs=True)
seed('C13-powers-chunk', 'C13', [(B + 'semigroups.h', '''          MulResult pow = generator.Pow(chunk_offset * chunk_size);
          if (!c.IsOne()) pow *= c;

''', '''          MulResult pow = generator.Pow(chunk_offset * chunk.size());
          if (!c.IsOne()) pow *= c;

''')], 'OpenMP and a size that is not a multiple of the chunk size', 'the last, shorter chunk of successive powers starts at a wrong exponent', HEAD + '''
int main() {
  F::Init();
  for (size_t n = 1; n < 40; ++n) {
    std::vector<F> v = F::GetSuccessivePowers(n, F(3), F(7));
    F w(7);
    for (size_t i = 0; i < n; ++i) {
      if (v[i] != w) return 1;
      w *= F(3);
    }
  }
  return 0;
}
''', omp='-fopenmp -DTACHYON_HAS_OPENMP', stubs=True)
seed('C13-fixed-digit', 'C13', [(M + 'fixed_base_msm.h', '''        if (bit_index < modulus_bits && *(it++)) {
''', '''        if (bit_index + 1 < modulus_bits && *(it++)) {
''')], 'a scalar whose highest bit is set (values of at least 2^253)', 'the top bit of the scalar is dropped', HEAD + '''
int main() {
  bn254::G1Curve::Init();
  FixedBaseMSM<A> m;
  m.Reset(2, A::Generator());
  std::vector<F> s = {F(BigInt<4>({3, 0, 0, UINT64_C(1) << 61})), F(BigInt<4>({5, 0, 0, 0}))};
  std::vector<J> o(2);
  if (!m.Run(s, &o)) return 1;
  for (size_t i = 0; i < 2; ++i) if (o[i] != A::Generator() * s[i]) return 1;
  return 0;
}
''', stubs=True)
seed('C13-multi-size', 'C13', [(B + 'semigroups.h', '''    size_t size = std::size(bases);
    if (size != std::size(*outputs)) return false;
''', '''    size_t size = std::size(bases);
    if (size < std::size(*outputs)) return false;
''')], 'one scalar, more bases than outputs', 'writes past the end of the outputs instead of failing', HEAD + '''
int main() {
  bn254::G1Curve::Init();
  std::vector<A> b(4, A::Generator());
  std::vector<J> o(2);
  o.reserve(8);
  return J::MultiScalarMul(F(2), std::vector<J>(4, J::Generator()), &o) ? 1 : 0;
}
''', stubs=True)
