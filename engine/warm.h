// concrete inputs of the warm-up run (the same in the symbolic interpreter and natively); mode 1: largest integers, 2: smallest, 3: running through the range, more: mixed
#pragma once
static inline unsigned long warmHash(int mode, long k) { unsigned long h = mode * 1000003ul + k * 7919ul + 12345; h ^= h >> 15; h *= 0x2c1b3c6dul; h ^= h >> 12; h *= 0x297a2d39ul; return (h ^ (h >> 15)) & 0xfffffffful; }
static inline double warmD(int mode, long k, double lo, double hi) { if (!(lo > -1e300 && hi < 1e300)) return 0.5 + (k % 5); return lo + (hi - lo) * ((mode < 4 ? (k * 7 + 3) % 16 : warmHash(mode, k) % 16) * 2 + 1) / 32.0; }
static inline unsigned long warmU(int mode, long k, unsigned long lo, unsigned long hi) { return mode == 1 ? hi : mode == 2 || hi - lo == ~0ul ? lo : lo + (mode == 3 ? k : warmHash(mode, k)) % (hi - lo + 1); }
