#pragma once
// include after everything whose log texts do not matter: from here on log statements are appended to *el::sx_log() if it is set
#include <easylogging++.h>
#include <sstream>
#include <vector>
namespace el {
// what the program logs, for harnesses that look at it
inline std::string*& sx_log() { static std::string* p = nullptr; return p; }
template <class T> auto sx_put(std::ostream& o, const T& v, int) -> decltype(o << v, void()) { o << v; }
template <class T> void sx_put(std::ostream&, const T&, long) {}
template <class T> void sx_put(std::ostream& o, const std::vector<T>& v, int) { o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? ", " : "") << v[i]; o << "]"; }
struct SxCap { explicit SxCap(const char* level) { if (sx_log()) *sx_log() += level; } template <class T> SxCap& operator<<(const T& v) { if (sx_log()) { std::ostringstream o; sx_put(o, v, 0); *sx_log() += o.str(); } return *this; } SxCap& operator<<(std::ostream& (*)(std::ostream&)) { return *this << '\n'; } ~SxCap() { if (sx_log()) *sx_log() += '\n'; } };
}
#ifdef SX_LOG_INFO
#define SXC_DEBUG SX_LOG_DEBUG
#define SXC_FATAL SX_LOG_FATAL
#else
#define SXC_DEBUG CLOG(DEBUG, ELPP_CURR_FILE_LOGGER_ID)
#define SXC_FATAL CLOG(FATAL, ELPP_CURR_FILE_LOGGER_ID)
#endif
#define SXC_INFO el::SxCap("INFO ")
#define SXC_WARNING el::SxCap("WARNING ")
#define SXC_ERROR el::SxCap("ERROR ")
#undef LOG
#define LOG(L) SXC_##L
