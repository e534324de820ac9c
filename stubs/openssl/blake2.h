#pragma once
#include <stddef.h>
#include <stdint.h>
#define BLAKE2B256_DIGEST_LENGTH (256 / 8)
#define BLAKE2B512_DIGEST_LENGTH (512 / 8)
typedef struct blake2b_state_st {
  uint64_t h[8];
  uint64_t t_low, t_high;
  uint8_t block[128];
  size_t block_used;
} BLAKE2B_CTX;
extern "C" {
void BLAKE2B512_Init(BLAKE2B_CTX*);
void BLAKE2B512_InitWithPersonal(BLAKE2B_CTX*, const void*);
void BLAKE2B512_Update(BLAKE2B_CTX*, const void*, size_t);
void BLAKE2B512_Final(uint8_t*, BLAKE2B_CTX*);
}
