B = 'tachyon/base/buffer/'
H12 = '''#include <cstdio>
#include <cstring>
#include <vector>
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/base/buffer/copyable.h"
#include "tachyon/math/matrix/matrix_types.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
using namespace tachyon;
using namespace tachyon::base;
'''
seed('C12-sub-bounds', 'C12', [(B + 'read_only_buffer.h', '''    if (!(size + buffer_offset).AssignIfValid(&size_needed)) return false;
    if (size_needed > buffer_len_) {
      return false;
    }
''', '''    if (!size.AssignIfValid(&size_needed)) return false;
    // Compare with what is left, so that nothing can overflow.
    if (size_needed > buffer_len_ - buffer_offset) {
      return false;
    }
    size_needed += buffer_offset;
''')], 'ReadPtrAt at an offset beyond the end of the buffer', 'the remaining length wraps around and a pointer past the end is handed out', H12 + '''
int main() {
  uint8_t m[8] = {};
  ReadOnlyBuffer b(m, 8);
  const uint8_t* p = nullptr;
  if (!b.ReadPtrAt(4, &p, 4) || p != m + 4) return 1;
  if (b.ReadPtrAt(5, &p, 4)) return 1;
  if (b.ReadPtrAt(9, &p, 4)) return 1;
  return 0;
}
''')
seed('C12-fixed-rows', 'C12', [('tachyon/math/matrix/matrix_types.h', '''    for (Eigen::Index i = 0; i < matrix.size(); ++i) {
      if (!buffer->Write(matrix.data()[i])) return false;
    }
    return true;
  }

  static bool ReadFrom(const ReadOnlyBuffer& buffer, Matrix* matrix) {
    Eigen::Index rows, cols;''', '''    // Rows that are contiguous are written at once, like a vector of values.
    for (Eigen::Index i = 0; i < matrix.size(); ++i) {
      Eigen::Index at = Rows == 1 || Cols == 1 || Rows == Eigen::Dynamic
                            ? i
                            : i / matrix.cols() + i % matrix.cols() * matrix.rows();
      if (!buffer->Write(matrix.data()[at])) return false;
    }
    return true;
  }

  static bool ReadFrom(const ReadOnlyBuffer& buffer, Matrix* matrix) {
    Eigen::Index rows, cols;''')], 'a matrix type with a fixed number of rows, more than one row and column', 'such matrices come back transposed', H12 + '''
int main() {
  using F = math::BabyBear;
  F::Init();
  math::Matrix<F, 2, 3> m, c;
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) m(i, j) = F(3 * i + j);
  Uint8VectorBuffer b;
  if (!b.Write(m)) return 1;
  b.set_buffer_offset(0);
  if (!b.Read(&c)) return 1;
  return m == c ? 0 : 1;
}
''')
seed('C12-cstr-size', 'C12', [(B + 'copyable.h', '''    return std::accumulate(values.begin(), values.end(), sizeof(size_t),
                           [](size_t total, const T& value) {
                             return total + base::EstimateSize(value);
                           });
  }
};

template <typename T, size_t N>
class Copyable<std::array<T, N>> {''', '''    if (values.empty()) return sizeof(size_t);
    // The values of a vector are of the same type.
    return sizeof(size_t) + values.size() * base::EstimateSize(values.back());
  }
};

template <typename T, size_t N>
class Copyable<std::array<T, N>> {''')], 'a vector whose elements have different encoded lengths', 'EstimateSize of vectors of vectors or strings differs from what is written', H12 + '''
int main() {
  std::vector<std::vector<uint32_t>> v = {{1, 2, 3}, {}, {4}};
  Uint8VectorBuffer b;
  if (!b.Write(v)) return 1;
  return base::EstimateSize(v) == b.buffer_offset() ? 0 : 1;
}
''')
seed('C12-write-be-room', 'C12', [(B + 'buffer.cc', '''    if (!(len + bytes).AssignIfValid(&size_needed)) return false;    \\
    if (size_needed > buffer_len_) {                                 \\
      if (!Grow(size_needed)) return false;                          \\
    }                                                                \\
    char* buffer = reinterpret_cast<char*>(buffer_);                 \\
    absl::big_endian''', '''    if (!(len + bytes).AssignIfValid(&size_needed)) return false;    \\
    if (size_needed > buffer_len_ && buffer_offset >= buffer_len_) { \\
      if (!Grow(size_needed)) return false;                          \\
    }                                                                \\
    char* buffer = reinterpret_cast<char*>(buffer_);                 \\
    absl::big_endian''')], 'a big endian write that starts inside a buffer and ends beyond it', 'bytes are written past the end of the buffer', H12 + '''
int main() {
  uint8_t m[16] = {};
  Buffer b(m, 6);
  b.set_endian(Endian::kBig);
  if (!b.Write(uint32_t{1})) return 1;
  if (b.Write(uint32_t{0x01020304})) return 1;
  for (int i = 6; i < 16; ++i) if (m[i]) return 1;
  return 0;
}
''')
