#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" void CRYPTO_chacha_20(uint8_t*, const uint8_t*, size_t, const uint8_t[32], const uint8_t[12], uint32_t);
extern "C" void chacha_core(uint8_t out[64], const uint32_t in[16]);
