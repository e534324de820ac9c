// Fixed-width big integers: every arithmetic, bitwise, comparison and conversion primitive.
#include <stddef.h>
#include <stdint.h>

#ifdef VERIF_INTRIN
#include <immintrin.h>

#include "tachyon/base/compiler_specific.h"
#undef HAS_BUILTIN
#define HAS_BUILTIN(x) 0
#endif

#include <bitset>

#include "tachyon/math/base/big_int.h"

using namespace tachyon;
using namespace tachyon::math;

#define U extern "C" __attribute__((noinline)) void
#define V extern "C" __attribute__((noinline)) uint64_t
#define W extern "C" __attribute__((noinline)) uint32_t
#define OPS(N)                                                                          \
  using B##N = BigInt<N>;                                                               \
  U add_##N(B##N* r, const B##N* a, const B##N* b) { *r = *a + *b; }                    \
  U addip_##N(B##N* r, const B##N* a, const B##N* b) { *r = *a; *r += *b; }             \
  U addself_##N(B##N* r, const B##N* a) { *r = *a; *r += *r; }                          \
  U sub_##N(B##N* r, const B##N* a, const B##N* b) { *r = *a - *b; }                    \
  U subip_##N(B##N* r, const B##N* a, const B##N* b) { *r = *a; *r -= *b; }             \
  U subself_##N(B##N* r, const B##N* a) { *r = *a; *r -= *r; }                          \
  U addc_##N(B##N* r, const B##N* a, const B##N* b) {                                   \
    uint64_t c = 0; r[0] = a->Add(*b, c); *reinterpret_cast<uint64_t*>(r + 1) = c; }    \
  U addcip_##N(B##N* r, const B##N* a, const B##N* b) {                                 \
    uint64_t c = 0; r[0] = *a; r[0].AddInPlace(*b, c);                                  \
    *reinterpret_cast<uint64_t*>(r + 1) = c; }                                          \
  U subb_##N(B##N* r, const B##N* a, const B##N* b) {                                   \
    uint64_t c = 0; r[0] = a->Sub(*b, c); *reinterpret_cast<uint64_t*>(r + 1) = c; }    \
  U subbip_##N(B##N* r, const B##N* a, const B##N* b) {                                 \
    uint64_t c = 0; r[0] = *a; r[0].SubInPlace(*b, c);                                  \
    *reinterpret_cast<uint64_t*>(r + 1) = c; }                                          \
  U dbl_##N(B##N* r, const B##N* a) { *r = a->MulBy2(); }                               \
  U dblip_##N(B##N* r, const B##N* a) { *r = *a; r->MulBy2InPlace(); }                  \
  U dblc_##N(B##N* r, const B##N* a) {                                                  \
    uint64_t c = 0; r[0] = a->MulBy2(c); *reinterpret_cast<uint64_t*>(r + 1) = c; }     \
  U dblcip_##N(B##N* r, const B##N* a) {                                                \
    uint64_t c = 0; r[0] = *a; r[0].MulBy2InPlace(c);                                   \
    *reinterpret_cast<uint64_t*>(r + 1) = c; }                                          \
  U mul_##N(B##N* r, const B##N* a, const B##N* b) { *r = *a * *b; }                    \
  U mulip_##N(B##N* r, const B##N* a, const B##N* b) { *r = *a; *r *= *b; }             \
  U mulx_##N(BigInt<2 * N>* r, const B##N* a, const B##N* b) { *r = a->MulExtend(*b); } \
  U multiply_##N(B##N* r, const B##N* a, const B##N* b) {                               \
    auto m = a->Multiply(*b); r[0] = m.lo; r[1] = m.hi; }                               \
  U half_##N(B##N* r, const B##N* a) { *r = *a; r->DivBy2InPlace(); }                   \
  U shl_##N(B##N* r, const B##N* a, uint32_t n) { *r = *a << n; }                       \
  U shlip_##N(B##N* r, const B##N* a, uint32_t n) { *r = *a; *r <<= n; }                \
  U shr_##N(B##N* r, const B##N* a, uint32_t n) { *r = *a >> n; }                       \
  U shrip_##N(B##N* r, const B##N* a, uint32_t n) { *r = *a; *r >>= n; }                \
  U and_##N(B##N* r, const B##N* a, const B##N* b) { *r = *a & *b; }                    \
  U or_##N(B##N* r, const B##N* a, const B##N* b) { *r = *a | *b; }                     \
  U xor_##N(B##N* r, const B##N* a, const B##N* b) { *r = *a ^ *b; }                    \
  U andip_##N(B##N* r, const B##N* a, const B##N* b) { *r = *a; *r &= *b; }             \
  U orip_##N(B##N* r, const B##N* a, const B##N* b) { *r = *a; *r |= *b; }              \
  U xorip_##N(B##N* r, const B##N* a, const B##N* b) { *r = *a; *r ^= *b; }             \
  V eq_##N(const B##N* a, const B##N* b) { return *a == *b; }                           \
  V ne_##N(const B##N* a, const B##N* b) { return *a != *b; }                           \
  V lt_##N(const B##N* a, const B##N* b) { return *a < *b; }                            \
  V le_##N(const B##N* a, const B##N* b) { return *a <= *b; }                           \
  V gt_##N(const B##N* a, const B##N* b) { return *a > *b; }                            \
  V ge_##N(const B##N* a, const B##N* b) { return *a >= *b; }                           \
  V iszero_##N(const B##N* a) { return a->IsZero(); }                                   \
  V isone_##N(const B##N* a) { return a->IsOne(); }                                     \
  U iseven_##N(uint64_t* r, const B##N* a) { *r = a->IsEven(); }                        \
  U isodd_##N(uint64_t* r, const B##N* a) { *r = a->IsOdd(); }                          \
  U zero_##N(B##N* r) { *r = B##N::Zero(); }                                            \
  U one_##N(B##N* r) { *r = B##N::One(); }                                              \
  U max_##N(B##N* r) { *r = B##N::Max(); }                                              \
  U ext_##N(BigInt<N + 2>* r, const B##N* a) { *r = a->Extend<N + 2>(); }               \
  U shrink_##N(B##N* r, const BigInt<N + 1>* a) { *r = a->Shrink<N>(); }                \
  U bytesle_##N(uint8_t* r, const B##N* a) {                                            \
    auto x = a->ToBytesLE(); __builtin_memcpy(r, x.data(), 8 * N); }                    \
  U bytesbe_##N(uint8_t* r, const B##N* a) {                                            \
    auto x = a->ToBytesBE(); __builtin_memcpy(r, x.data(), 8 * N); }                    \
  U frombytesle_##N(B##N* r, const std::array<uint8_t, 8 * N>* a) {                     \
    *r = B##N::FromBytesLE(*a); }                                                       \
  U frombytesbe_##N(B##N* r, const std::array<uint8_t, 8 * N>* a) {                     \
    *r = B##N::FromBytesBE(*a); }                                                       \
  U partle_##N(B##N* r, const std::array<uint8_t, 8 * N - 3>* a) {                      \
    *r = B##N::FromBytesLE(*a); }                                                       \
  U partbe_##N(B##N* r, const std::array<uint8_t, 8 * N - 3>* a) {                      \
    *r = B##N::FromBytesBE(*a); }                                                       \
  U bitsle_##N(std::bitset<64 * N>* r, const B##N* a) { *r = a->ToBitsLE(); }           \
  U bitsbe_##N(std::bitset<64 * N>* r, const B##N* a) { *r = a->ToBitsBE(); }           \
  U frombitsle_##N(B##N* r, const std::bitset<64 * N>* a) { *r = B##N::FromBitsLE(*a); }\
  U frombitsbe_##N(B##N* r, const std::bitset<64 * N>* a) { *r = B##N::FromBitsBE(*a); }\
  U testbit_##N(uint64_t* r, const B##N* a, size_t n) {                                 \
    *r = BitTraits<B##N>::TestBit(*a, n); }                                             \
  U setbit_##N(B##N* r, const B##N* a, size_t n) {                                      \
    *r = *a; BitTraits<B##N>::SetBit(*r, n, true); }                                    \
  U clrbit_##N(B##N* r, const B##N* a, size_t n) {                                      \
    *r = *a; BitTraits<B##N>::SetBit(*r, n, false); }                                   \
  U bits64_##N(uint64_t* r, const B##N* a, size_t o, size_t c) {                        \
    *r = a->ExtractBits64(o, c); }                                                      \
  U bits32_##N(uint32_t* r, const B##N* a, size_t o, size_t c) {                        \
    *r = a->ExtractBits32(o, c); }

#ifdef VERIF_N
OPS(1)
OPS(2)
OPS(3)
OPS(4)
OPS(5)
OPS(6)
OPS(8)
#endif
