// Harness interface.  Compiled with -DSYMX to IR the functions below are built-ins of the symbolic interpreter;
// compiled natively they read the values of a replay file, so that the same harness drives the real library.
#pragma once
#include <string>
#include <cmath>
#include <cstdio>
extern "C" {
double __sym_double(const char* name, double lo, double hi);
unsigned long __sym_u64(const char* name, unsigned long lo, unsigned long hi, int width);
void __sym_assume(bool c);
void __sym_check(bool c, const char* label);
void __sym_eq(double a, double b, const char* label);
void __sym_near(double a, double b, double tol, const char* label);
void __sym_reach(const char* label);
void __sym_observe(const char* name, double v);
void __sym_expect_fatal(int on);
void __sym_opt(const char* name, unsigned long v);
unsigned long __sym_concretize(unsigned long v);
bool __sym_fork(bool c);
int __sym_mode();
int __sym_warm();   // non-zero during the warm-up run: a harness with narrow assumptions picks inputs that meet them
unsigned long __sym_live();   // bytes on the heap
}
#define HARNESS(n) extern "C" void H_##n()
// inputs
inline double symD(const char* n, double lo, double hi) { return __sym_double(n, lo, hi); }
inline unsigned symU(const char* n, unsigned lo, unsigned hi) { return (unsigned)__sym_u64(n, lo, hi, 32); }
inline unsigned pickU(const char* n, unsigned lo, unsigned hi) { return (unsigned)__sym_concretize(__sym_u64(n, lo, hi, 32)); }   // fork over every value
inline bool symB(const char* n) { return __sym_u64(n, 0, 1, 8) != 0; }
inline bool pickB(const char* n) { return __sym_concretize(__sym_u64(n, 0, 1, 8)) != 0; }
inline char symC(const char* n) { return (char)__sym_u64(n, 0, 255, 8); }
inline void assume(bool c) { __sym_assume(c); }
// goals
inline void CK(bool c, const char* l) { __sym_check(c, l); }
inline void EQ(double a, double b, const char* l) { __sym_eq(a, b, l); }
inline void NEAR(double a, double b, double tol, const char* l) { __sym_near(a, b, tol, l); }
inline void OBS(const char* n, double v) { __sym_observe(n, v); }
inline void REACH(const char* l) { __sym_reach(l); }
// labels with indices
struct L2 { char b[96]; L2(const char* s, long i, long j = -1, long k = -1) { int n = 0; while (s[n] && n < 60) { b[n] = s[n]; n++; } long v[3] = {i, j, k}; for (int t = 0; t < 3; t++) if (v[t] >= 0) { b[n++] = t ? ',' : '['; char d[20]; int m = 0; long x = v[t]; do { d[m++] = '0' + x % 10; x /= 10; } while (x && m < 8); while (m) b[n++] = d[--m]; } b[n++] = ']'; b[n] = 0; } operator const char*() const { return b; } };
// files in the working directory of the run
void symFile(const char* name, const std::string& content);
std::string symRead(const char* name, bool* ok = nullptr);
