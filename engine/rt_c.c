#include <stddef.h>
extern double __sym_parse_double(const char*); extern unsigned long __sym_concretize(unsigned long);
extern int* __errno_location(void);
#define errno (*__errno_location())
#define ERANGE 34
#define bool int
#define false 0
#define true 1
typedef unsigned char uc;
// ---- C library
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { for (;; a++, b++) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (!a[i]) return 0; } return 0; }
static unsigned char low(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) { for (;; a++, b++) { unsigned char x = low(*a), y = low(*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
int memcmp(const void* a, const void* b, size_t n) { const uc* x = (const uc*)a; const uc* y = (const uc*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void* a, const void* b, size_t n) { const uc* x = (const uc*)a; const uc* y = (const uc*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return 1; return 0; }
void* memchr(const void* a, int c, size_t n) { uc* x = (uc*)a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return x + i; return 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* a, const char* b) { size_t n = strlen(b); for (;; a++) { if (!strncmp(a, b, n)) return (char*)a; if (!*a) return 0; } }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isblank(int c) { return c == ' ' || c == 9; }
unsigned long strtoul(const char* s, char** e, int base);
static unsigned long parseU(const char** pp, int base, int* any, int* ovf) { unsigned long v = 0; const char* p = *pp; *any = 0; *ovf = 0; for (;; p++) { int d; char c = *p; if (c >= '0' && c <= '9') d = c - '0'; else if (base > 10 && c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (base > 10 && c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; *any = 1; if (v > (~0ul - d) / base) *ovf = 1; v = v * base + d; } *pp = p; return v; }
long strtol(const char* s, char** e, int base) { const char* p = s; while (isspace((unsigned char)*p)) p++; bool n = false; if (*p == '-') { n = true; p++; } else if (*p == '+') p++; if (base == 0) base = 10; bool any, ovf; unsigned long v = parseU(&p, base, &any, &ovf); if (!any) { if (e) *e = (char*)s; return 0; } if (e) *e = (char*)p; if (ovf || v > 0x7fffffffffffffffUL + (n ? 1 : 0)) { errno = ERANGE; return n ? (-0x7fffffffffffffffL - 1) : 0x7fffffffffffffffL; } return n ? (long)(0 - v) : (long)v; }
unsigned long strtoul(const char* s, char** e, int base) { const char* p = s; while (isspace((unsigned char)*p)) p++; bool n = false; if (*p == '-') { n = true; p++; } else if (*p == '+') p++; if (base == 0) base = 10; bool any, ovf; unsigned long v = parseU(&p, base, &any, &ovf); if (!any) { if (e) *e = (char*)s; return 0; } if (e) *e = (char*)p; if (ovf) { errno = ERANGE; return ~0ul; } return n ? 0 - v : v; }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
double strtod(const char* s, char** e) { const char* p = s; while (isspace((unsigned char)*p)) p++; const char* b = p; char buf[400]; int n = 0;
  if (*p == 1) { while (*p != 2 && n < 390) buf[n++] = *p++; buf[n++] = *p++; buf[n] = 0; if (e) *e = (char*)p; return __sym_parse_double(buf); }
  if (*p == '+' || *p == '-') p++; bool dig = false; while (isdigit((unsigned char)*p)) { p++; dig = true; } if (*p == '.') { p++; while (isdigit((unsigned char)*p)) { p++; dig = true; } }
  if (!dig) { if (e) *e = (char*)s; return 0; }
  if (*p == 'e' || *p == 'E') { const char* q = p + 1; if (*q == '+' || *q == '-') q++; if (isdigit((unsigned char)*q)) { while (isdigit((unsigned char)*q)) q++; p = q; } }
  for (const char* q = b; q < p && n < 390; q++) buf[n++] = (char)__sym_concretize((unsigned char)*q); buf[n] = 0; if (e) *e = (char*)p; return __sym_parse_double(buf); }
double atof(const char* s) { return strtod(s, 0); }
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
