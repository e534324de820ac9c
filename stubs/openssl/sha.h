#pragma once
#include <stddef.h>
#include <stdint.h>
#define SHA256_DIGEST_LENGTH 32
typedef struct sha256_state_st {
  uint32_t h[8];
  uint8_t data[64];
  unsigned num;
} SHA256_CTX;
extern "C" {
int SHA256_Init(SHA256_CTX*);
int SHA256_Update(SHA256_CTX*, const void*, size_t);
int SHA256_Final(uint8_t*, SHA256_CTX*);
}
