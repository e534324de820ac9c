PK = 'tachyon/zk/plonk/'
PRE = '''#include <cstdio>
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/zk/plonk/expressions/expression_factory.h"
using namespace tachyon; using namespace tachyon::zk; using namespace tachyon::zk::plonk;
using F = math::bn254::Fr;
using E = tachyon::zk::plonk::ExpressionFactory<F>;
'''
seed('C21-rotation-wrap', 'C21', [('tachyon/zk/base/rotation.h', '''    int32_t result = ((idx + value * scale) % size).ValueOrDie();
    if (result < 0) result += size;
    return result;
''', '''    int32_t result = ((idx + value * scale + size) % size).ValueOrDie();
    return result;
''')], 'a rotation backwards by more than the number of rows', 'the index of the row is not reduced modulo the number of rows', '''#include <cstdio>
#include "tachyon/zk/base/rotation.h"
using namespace tachyon::zk;
int main() {
  for (int v = -20; v <= 20; ++v)
    for (int s = 1; s < 4; ++s)
      for (int i = 0; i < 4; ++i)
        if (Rotation(v).GetIndex(i, s, 4) != static_cast<unsigned>(((i + v * s) % 4 + 4) % 4)) return 2;
  return 0;
}
''', stubs=True)
seed('C21-instance-identifier', 'C21', [(PK + 'expressions/evaluator/identifier.h', '''        ss_ << "instance[" << instance->query().column().index() << "]["
            << instance->query().rotation().value() << "]";
''', '''        ss_ << "instance[" << instance->query().column().index() << "]";
''')], 'two lookups whose tables are the same instance column at different rotations', 'different expressions get one identifier, so lookups into different tables are merged', PRE.replace("using namespace", '#include "tachyon/zk/expressions/evaluator.h"\n#include "tachyon/zk/plonk/expressions/evaluator/identifier.h"\nusing namespace', 1) + '''int main() {
  auto a = E::Instance(InstanceQuery(0, Rotation::Cur(), InstanceColumnKey(0)));
  auto b = E::Instance(InstanceQuery(1, Rotation::Next(), InstanceColumnKey(0)));
  return GetIdentifier(a.get()) == GetIdentifier(b.get()) ? 2 : 0;
}
''', stubs=True)
seed('C21-exclusion-first', 'C21', [(PK + 'constraint_system/selector_compressor.h', '''            std::any_of(combination_added.begin(), combination_added.end(),
''', '''            std::any_of(combination_added.begin(),
                        combination_added.begin() + 1,
''')], 'three selectors, the second and third active on a common row', 'selectors that are both active on a row share a column, one of them is lost', PRE + '''#include "tachyon/zk/plonk/constraint_system/selector_compressor.h"
int main() {
  std::vector<std::vector<bool>> in = {{1, 0, 0}, {0, 1, 0}, {0, 1, 1}};
  SelectorCompressor<F> c;
  size_t k = 0;
  c.Process(in, {2, 2, 2}, 6, [&k]() {
    ++k;
    return E::Fixed(FixedQuery(k - 1, Rotation::Cur(), FixedColumnKey(k - 1)));
  });
  for (size_t i = 0; i < 3; ++i)
    for (size_t j = 0; j < 3; ++j)
      if (j < i)
        for (size_t r = 0; r < 3; ++r)
          if (in[i][r] && in[j][r] && c.selector_assignments()[i].combination_index() == c.selector_assignments()[j].combination_index()) return 2;
  return 0;
}
''', stubs=True)
seed('C21-zero-minus', 'C21', [(PK + 'vanishing/graph_evaluator.h', '''          if (left_result.IsZeroConstant()) {
            return AddCalculation(Calculation::Negate(right_result));
          } else if (right_result.IsZeroConstant()) {
            return left_result;
''', '''          if (left_result.IsZeroConstant()) {
            return right_result;
          } else if (right_result.IsZeroConstant()) {
            return left_result;
''')], 'a difference whose left operand is the constant zero', 'the compiled graph of a gate evaluates 0 - x to x', PRE + '''#include "tachyon/zk/plonk/vanishing/graph_evaluator.h"
int main() {
  GraphEvaluator<F> g;
  auto x = E::Sum(E::Constant(F::Zero()), E::Negated(E::Constant(F(5))));
  auto y = E::Constant(F(5));
  ValueSource s = g.AddExpression(x.get());
  ValueSource t = g.AddExpression(y.get());
  return s == t ? 2 : 0;
}
''', stubs=True)
