// Stand-in for easylogging++: log statements are evaluated and discarded; LOG(FATAL) and failed CHECKs stop the path.
#pragma once
#define EASYLOGGINGPP_H
#include "symx_io.h"
#include <vector>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <functional>
#include <algorithm>
#include <memory>
#include <cmath>
#include <cassert>
#include <cstdlib>
#include <cstring>
#include <cctype>
#include <type_traits>
#include <ctime>
#include <utility>
namespace el {
enum class Level { Global, Trace, Debug, Fatal, Error, Warning, Verbose, Info, Unknown };
enum class ConfigurationType { Enabled, ToFile, ToStandardOutput, Format, Filename, MillisecondsWidth, PerformanceTracking, MaxLogFileSize, LogFlushThreshold, SubsecondPrecision, Unknown };
enum class LoggingFlag { ColoredTerminalOutput, DisableApplicationAbortOnFatalLog, LogDetailedCrashReason, StrictLogFileSizeCheck };
struct Configurations { void setToDefault() {} template <class... A> void set(A&&...) {} template <class... A> void setGlobally(A&&...) {} };
struct Loggers { template <class... A> static void reconfigureAllLoggers(A&&...) {} template <class... A> static void reconfigureLogger(A&&...) {} static void addFlag(LoggingFlag) {} static void removeFlag(LoggingFlag) {} static void flushAll() {} };
struct SxNull { template <class T> SxNull& operator<<(const T&) { return *this; } SxNull& operator<<(std::ostream& (*)(std::ostream&)) { return *this; } };
struct SxFatal { template <class T> SxFatal& operator<<(const T&) { return *this; } SxFatal& operator<<(std::ostream& (*)(std::ostream&)) { return *this; } const char* w; explicit SxFatal(const char* s) : w(s) {} ~SxFatal() { __sym_fatal(w); } };
}
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define SX_LOG_INFO el::SxNull()
#define SX_LOG_WARNING el::SxNull()
#define SX_LOG_ERROR el::SxNull()
#define SX_LOG_DEBUG el::SxNull()
#define SX_LOG_TRACE el::SxNull()
#define SX_LOG_FATAL el::SxFatal("LOG(FATAL)")
#define LOG(L) SX_LOG_##L
#define DLOG(L) SX_LOG_##L
#define CLOG(L, ...) SX_LOG_##L
#define VLOG(n) el::SxNull()
#define LOG_IF(c, L) if (!(c)) ; else SX_LOG_##L
#define DLOG_IF(c, L) LOG_IF(c, L)
#define LOG_N_TIMES(n, L) SX_LOG_##L
#define LOG_EVERY_N(n, L) SX_LOG_##L
#define LOG_AFTER_N(n, L) SX_LOG_##L
#define CHECK(c) if (c) ; else el::SxFatal("CHECK(" #c ")")
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_BOUNDS(v, a, b) CHECK((v) >= (a) && (v) <= (b))
template <class T> T* sx_notnull(T* p) { if (!p) __sym_fatal("CHECK_NOTNULL"); return p; }
#define CHECK_NOTNULL(p) sx_notnull(p)
#define CHECK_STREQ(a, b) CHECK(strcmp(a, b) == 0)
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_NOTNULL(p) CHECK_NOTNULL(p)
#define MAKE_LOGGABLE(ClassType, inst, os) std::ostream& operator<<(std::ostream& os, const ClassType& inst)
#define TIMED_SCOPE(a, b)
#define TIMED_SCOPE_IF(a, b, c)
#define TIMED_BLOCK(a, b) for (bool a = true; a; a = false)
#define TIMED_FUNC(a)
#define PERFORMANCE_CHECKPOINT(a)
#define INITIALIZE_EASYLOGGINGPP
#define _INITIALIZE_EASYLOGGINGPP
#define START_EASYLOGGINGPP(a, b)
