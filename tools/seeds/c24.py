LY = 'tachyon/zk/plonk/layout/'
PRE = '''#include <cstdio>
#include <sys/wait.h>
#include <tuple>
#include <unistd.h>
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/zk/plonk/layout/floor_planner/allocations.h"
#include "tachyon/zk/plonk/layout/floor_planner/single_chip_layouter.h"
using namespace tachyon; using namespace tachyon::zk; using namespace tachyon::zk::plonk;
using F = math::bn254::Fr;
struct Rec : Assignment<F> {
  std::vector<std::tuple<AnyColumnKey, RowIndex, AnyColumnKey, RowIndex>> copies;
  std::vector<std::pair<size_t, RowIndex>> advice;
  void AssignAdvice(std::string_view, const AdviceColumnKey& c, RowIndex r, AssignCallback f) override { advice.push_back({c.index(), r}); }
  void AssignFixed(std::string_view, const FixedColumnKey&, RowIndex, AssignCallback f) override { std::move(f).Run(); }
  void Copy(const AnyColumnKey& a, RowIndex i, const AnyColumnKey& b, RowIndex j) override { copies.push_back({a, i, b, j}); }
};
'''
seed('C24-constant-row', 'C24', [(LY + 'floor_planner/single_chip_layouter.h', '''            regions_[advice.region_index()] + advice.row_offset());
        ++next_constant_row;''', '''            region_start + advice.row_offset());
        ++next_constant_row;''')], 'a constant constrained, in a later region, to a cell of an earlier region that starts at another row',
     'the constant is copied to a row of the later region, and the cell is left free', PRE + '''int main() {
  F::Init();
  Rec rec;
  SingleChipLayouter<F> l(&rec, {FixedColumnKey(0)});
  AdviceColumnKey a(0);
  Cell first;
  auto val = []() { return Value<F>::Known(F::One()); };
  l.AssignRegion("1", [&](Region<F>& r) { first = r.AssignAdvice("x", a, 1, val).cell(); });
  l.AssignRegion("2", [&](Region<F>& r) {
    r.AssignAdvice("y", a, 0, val);
    r.ConstrainConstant(first, math::RationalField<F>(F(7)));
  });
  if (rec.copies.size() != 1) return 2;
  auto [c, i, d, j] = rec.copies[0];
  return d == AnyColumnKey(a) && j == 1 ? 0 : 2;
}
''', stubs=True)
seed('C24-hole', 'C24', [(LY + 'floor_planner/allocations.h', '''      row = std::max(row, region.End());''', '''      row = region.End();''')],
     'a search for free rows that starts after the end of an earlier region of the column', 'rows before the start, outside of the space left by the other columns, are offered, so that regions overlap', PRE + '''int main() {
  Allocations a;
  a.allocations().insert(AllocatedRegion(0, 2));
  a.allocations().insert(AllocatedRegion(9, 2));
  std::vector<EmptySpace> s = a.FreeIntervals(5, 8);
  if (s.size() != 1 || s[0].start() != 5 || s[0].end() != std::optional<RowIndex>(8)) return 2;
  s = a.FreeIntervals(4, std::nullopt);
  return s.size() == 2 && s[0].start() == 4 && s[0].end() == std::optional<RowIndex>(9) && s[1].start() == 11 ? 0 : 2;
}
''', stubs=True)
seed('C24-table-gap', 'C24', [(LY + 'floor_planner/simple_lookup_table_layouter.h', '''entry.assigned.resize(offset + 1, false);''', '''entry.assigned.resize(offset + 1, !entry.assigned.empty());''')],
     'a table column whose rows are assigned with a gap after the first of them', 'a table with an unassigned row is accepted, and the zero in that row can be looked up', PRE + '''int main() {
  F::Init();
  auto run = [](std::vector<RowIndex> rows) {
    pid_t p = fork();
    if (p == 0) {
      Rec rec;
      SingleChipLayouter<F> l(&rec, {});
      l.AssignLookupTable("t", [&](LookupTable<F>& t) {
        for (RowIndex r : rows)
          if (!t.AssignCell("c", LookupTableColumn(FixedColumnKey(0)), r, []() { return Value<F>::Known(F::One()); })) _exit(1);
      });
      _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
  };
  if (!run({0, 1, 2}) || !run({2, 1, 0}) || !run({0, 2, 1})) return 3;
  return run({0, 3}) || run({1, 2}) || run({0, 1, 4, 3}) ? 2 : 0;
}
''', stubs=True)
seed('C24-column-kind', 'C24', [(LY + 'floor_planner/single_chip_layouter.h', '''    for (const RegionColumn& column : shape.columns()) {
      columns_[column] = region_start + shape.row_count();
    }''', '''    for (const RegionColumn& column : shape.columns()) {
      RowIndex& next = columns_[column];
      if (next <= region_start) next += shape.row_count();
    }''')], 'a region placed below the first free row of one of its columns because another column is in use longer', 'the column is thought to be free earlier than it is, and a later region of that column alone overlaps', PRE + '''int main() {
  F::Init();
  Rec rec;
  SingleChipLayouter<F> l(&rec, {});
  auto val = []() { return Value<F>::Known(F::One()); };
  AdviceColumnKey a(0), b(1);
  l.AssignRegion("1", [&](Region<F>& r) { r.AssignAdvice("x", a, 2, val); });
  l.AssignRegion("2", [&](Region<F>& r) { r.AssignAdvice("x", a, 0, val); r.AssignAdvice("y", b, 0, val); });
  l.AssignRegion("3", [&](Region<F>& r) { r.AssignAdvice("y", b, 2, val); });
  // rows: 2; 3, 3; the third region of three rows starts after row 3
  return rec.advice.size() == 4 && rec.advice[1].second == 3 && rec.advice[2].second == 3 && rec.advice[3].second >= 6 ? 0 : 2;
}
''', stubs=True)
