// Native implementation of the harness interface: replays one model against the real library.
// exit codes: 0 all goals held, 1 a goal failed, 77 an assumption did not hold, 3 internal
#include "symx.h"
#include "warm.h"
#include <map>
#include <vector>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <iostream>
#include <exception>
#include <dlfcn.h>
#include <signal.h>
#include <sys/stat.h>
#include <unistd.h>
#include <easylogging++.h>
static std::map<std::string, std::string> g_val; static std::map<std::string, int> g_cnt, g_ocnt; static int g_expect = 0, g_warm = 0; static long g_warmCount = 0; static bool g_failed = false; static FILE* g_rep;
static std::string uniq(const char* n) { int k = g_cnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
static void fail(const std::string& kind, const std::string& l, const std::string& d) { fprintf(g_rep, "FAIL %s | %s | %s\n", kind.c_str(), l.c_str(), d.c_str()); fflush(g_rep); g_failed = true; }
[[noreturn]] static void done(int rc) { fflush(g_rep); _exit(rc); }
static double toD(const std::string& s) { return strtod(s.c_str(), nullptr); }
extern "C" {
double __sym_double(const char* n, double lo, double hi) { if (g_warm) return warmD(g_warm, g_warmCount++, lo, hi); std::string u = uniq(n); auto it = g_val.find(u); if (it == g_val.end()) return lo > -1e300 && hi < 1e300 ? (lo + hi) / 2 : 0.5; return toD(it->second); }
unsigned long __sym_u64(const char* n, unsigned long lo, unsigned long hi, int) { if (g_warm) return warmU(g_warm, g_warmCount++, lo, hi); std::string u = uniq(n); auto it = g_val.find(u); if (it == g_val.end()) return lo; return strtoull(it->second.c_str(), nullptr, 10); }
void __sym_assume(bool c) { if (!c) { if (g_failed) done(1); fprintf(g_rep, "ASSUME\n"); done(77); } }
void __sym_check(bool c, const char* l) { if (!c && !g_warm) { fail("check", l, ""); } }
void __sym_eq(double a, double b, const char* l) { if (g_warm) return; double sc = std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b))); if (!(std::fabs(a - b) <= 1e-7 * sc)) { char t[96]; snprintf(t, 96, "%.17g vs %.17g", a, b); fail("eq", l, t); } }
void __sym_near(double a, double b, double tol, const char* l) { if (g_warm) return; if (!(std::fabs(a - b) <= tol * 1.2)) { char t[96]; snprintf(t, 96, "%.17g vs %.17g", a, b); fail("eq", l, t); } }
void __sym_reach(const char* l) { if (g_warm) return; fprintf(g_rep, "REACH %s\n", l); }
void __sym_observe(const char* n, double v) { if (g_warm) return; int k = g_ocnt[n]++; std::string u = n; if (k) u += "#" + std::to_string(k); fprintf(g_rep, "OBS %s %.17g\n", u.c_str(), v); }
void __sym_expect_fatal(int on) { g_expect = on; }
void __sym_opt(const char*, unsigned long) {}
unsigned long __sym_concretize(unsigned long v) { return v; }
bool __sym_fork(bool c) { return c; }
int __sym_mode() { return 0; }
int __sym_warm() { return g_warm; }
size_t __sanitizer_get_current_allocated_bytes();
unsigned long __sym_live() { return __sanitizer_get_current_allocated_bytes(); }
}
void symFile(const char* name, const std::string& c) { std::ofstream f(name, std::ios::binary | std::ios::trunc); f << c; }
std::string symRead(const char* name, bool* ok) { std::ifstream f(name, std::ios::binary); if (ok) *ok = f.is_open(); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void onAbort(int sig) { if (sig == SIGABRT && g_expect) { fprintf(g_rep, "FATAL\n"); done(g_failed ? 1 : 0); } fail(sig == SIGABRT ? "abort" : sig == SIGALRM ? "nontermination" : "memory", sig == SIGALRM ? "timeout" : strsignal(sig), ""); done(1); }
// leaves non-zero bytes below every frame, so that reading an uninitialised local shows (second replay of an unconfirmed counterexample)
static bool g_dirty = false;
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
extern "C" __attribute__((noinline, no_sanitize("address", "coverage"))) void __sanitizer_cov_trace_pc_guard(uint32_t*) { if (!g_dirty) return; volatile unsigned long b[1024]; for (size_t i = 0; i < 1024; ++i) b[i] = 0xC5C5C5C5C5C5C5C5ul; }
int main(int argc, char** argv) {
  if (argc < 4) return 3; g_rep = fopen(argv[3], "w"); if (!g_rep) return 3;
  { std::ifstream f(argv[2]); std::string k; while (std::getline(f, k)) { auto p = k.rfind('\t'); if (p != std::string::npos) g_val[k.substr(0, p)] = k.substr(p + 1); } }
  { el::Configurations c; c.setToDefault(); c.setGlobally(el::ConfigurationType::ToFile, "false"); c.setGlobally(el::ConfigurationType::ToStandardOutput, "false"); el::Loggers::reconfigureAllLoggers(c); }
  signal(SIGABRT, onAbort); signal(SIGSEGV, onAbort); signal(SIGFPE, onAbort); signal(SIGALRM, onAbort); alarm(argc > 4 ? atoi(argv[4]) : 60);
  void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!f) { fprintf(stderr, "no entry %s\n", argv[1]); return 3; }
  g_dirty = getenv("SYMX_DIRTY_STACK");
  { auto w = g_val.find("__warm"); if (w != g_val.end() && mkdir("warm", 0700) == 0 && chdir("warm") == 0) { g_warm = atoi(w->second.c_str()); f(); g_warm = 0; g_expect = 0; if (chdir("..")) return 3; } }
  try { f(); } catch (std::exception& e) { if (!g_expect) fail("exception", "uncaught exception", e.what()); } catch (...) { fail("exception", "uncaught exception", "?"); }
  fprintf(g_rep, "END\n"); done(g_failed ? 1 : 0);
}
