// Minimal stand-in for the libstdc++ stream classes, compiled to IR together with the code under test, so that
// formatted input and output are executed by the symbolic interpreter.  Symbolic doubles are written to text as
// placeholders (\x01D<id>\x02) that the readers below turn back into the same term.
#pragma once
#include <iosfwd>
#include <string>
#include <cstring>
#include <ctime>
#include <memory>
#include <exception>
#include <stdexcept>
extern "C" {
unsigned long __sym_fmt_double(char* buf, double v, int prec);
double __sym_parse_double(const char* text);
void __sym_fatal(const char*);
void __sym_nosuch(const char*);
bool __sym_fork(bool);
unsigned long __sym_concretize(unsigned long);
}
namespace symx { std::string* vfile(const char* name, bool create); bool isSpace(char c); std::string fmtU(unsigned long v); }
namespace std {
class locale { public: static const locale& classic() { static locale l; return l; } };
class ios_base {
public:
  typedef int fmtflags; typedef int iostate; typedef int openmode; typedef int seekdir;
  static const fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = left | right | internal, basefield = dec | oct | hex, floatfield = scientific | fixed;
  static const iostate badbit = 1, eofbit = 2, failbit = 4, goodbit = 0;
  static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static const seekdir beg = 0, cur = 1, end = 2;
  fmtflags flags() const { return _fl; } fmtflags flags(fmtflags f) { fmtflags o = _fl; _fl = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = _fl; _fl |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = _fl; _fl = (_fl & ~m) | (f & m); return o; } void unsetf(fmtflags f) { _fl &= ~f; }
  streamsize precision() const { return _prec; } streamsize precision(streamsize p) { streamsize o = _prec; _prec = p; return o; }
  streamsize width() const { return _w; } streamsize width(streamsize p) { streamsize o = _w; _w = p; return o; }
  locale getloc() const { return locale(); } locale imbue(const locale&) { return locale(); }
  static bool sync_with_stdio(bool = true) { return true; }
  class failure : public std::runtime_error { public: failure(const char* s) : runtime_error(s) {} };
  virtual ~ios_base() {}
protected:
  fmtflags _fl = skipws | dec; streamsize _prec = 6, _w = 0;
};
template <class C, class T> class basic_streambuf {
public:
  typedef T traits_type; typedef typename T::int_type int_type; typedef C char_type;
  virtual ~basic_streambuf() {}
  int_type sgetc() { basic_string<C>* s = str_(); return _r < s->size() ? T::to_int_type((*s)[_r]) : T::eof(); }
  int_type sbumpc() { basic_string<C>* s = str_(); return _r < s->size() ? T::to_int_type((*s)[_r++]) : T::eof(); }
  int_type snextc() { sbumpc(); return sgetc(); }
  int_type sungetc() { if (_r) { _r--; return sgetc(); } return T::eof(); }
  int_type sputc(C c) { str_()->push_back(c); return T::to_int_type(c); }
  streamsize sputn(const C* p, streamsize n) { str_()->append(p, n); return n; }
  streamsize in_avail() { return str_()->size() - _r; }
  int pubsync() { return 0; }
  basic_string<C> _own; basic_string<C>* _ext = nullptr; size_t _r = 0;
  basic_string<C>* str_() { return _ext ? _ext : &_own; }
};
template <class C, class T> class basic_ios : public ios_base {
public:
  C widen(char c) const { return (C)c; } char narrow(C c, char) const { return (char)c; }
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type;
  basic_ios() {} explicit basic_ios(basic_streambuf<C, T>* b) : _sb(b) {}
  void init(basic_streambuf<C, T>* b) { _sb = b; }
  bool good() const { return _st == 0; } bool eof() const { return _st & eofbit; } bool fail() const { return _st & (failbit | badbit); } bool bad() const { return _st & badbit; }
  bool operator!() const { return fail(); } explicit operator bool() const { return !fail(); }
  iostate rdstate() const { return _st; } void setstate(iostate s) { _st |= s; } void clear(iostate s = goodbit) { _st = s; }
  basic_streambuf<C, T>* rdbuf() const { return _sb; } basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { auto o = _sb; _sb = b; return o; }
  C fill() const { return _fill; } C fill(C c) { C o = _fill; _fill = c; return o; }
  basic_ios& copyfmt(const basic_ios& o) { _fl = o._fl; _prec = o._prec; _w = o._w; return *this; }
  void* tie() const { return nullptr; }
protected:
  basic_streambuf<C, T>* _sb = nullptr; iostate _st = 0; C _fill = ' ';
};
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  explicit basic_ostream(basic_streambuf<C, T>* b) { this->init(b); }
  class sentry { public: explicit sentry(basic_ostream&) {} operator bool() const { return true; } };
  basic_ostream& put(C c) { this->rdbuf()->sputc(c); return *this; }
  basic_ostream& write(const C* p, streamsize n) { this->rdbuf()->sputn(p, n); return *this; }
  basic_ostream& flush() { return *this; }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  basic_ostream& operator<<(unsigned long v) { return pad(symx::fmtU(v)); }
  basic_ostream& operator<<(long v) { if (v < 0) return pad("-" + symx::fmtU(0 - (unsigned long)v)); return pad(symx::fmtU(v)); }
  basic_ostream& operator<<(unsigned long long v) { return *this << (unsigned long)v; } basic_ostream& operator<<(long long v) { return *this << (long)v; }
  basic_ostream& operator<<(int v) { return *this << (long)v; } basic_ostream& operator<<(unsigned v) { return *this << (unsigned long)v; }
  basic_ostream& operator<<(short v) { return *this << (long)v; } basic_ostream& operator<<(unsigned short v) { return *this << (unsigned long)v; }
  basic_ostream& operator<<(bool v) { return *this << (unsigned long)v; }
  basic_ostream& operator<<(double v) { char b[400]; unsigned long n = __sym_fmt_double(b, v, (int)this->_prec | ((this->_fl & ios_base::scientific) ? 1 << 16 : 0) | ((this->_fl & ios_base::fixed) ? 2 << 16 : 0)); return pad(basic_string<C>(b, n)); }
  basic_ostream& operator<<(float v) { return *this << (double)v; }
  basic_ostream& operator<<(const void*) { return pad("0xptr"); }
  basic_ostream& pad(const basic_string<C>& s) { if (!this->fail()) { long w = this->width(0); long n = s.size(); if (!(this->_fl & ios_base::left)) for (long i = n; i < w; i++) put(this->fill()); this->rdbuf()->sputn(s.data(), n); if (this->_fl & ios_base::left) for (long i = n; i < w; i++) put(this->fill()); } return *this; }
};
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { return o.pad(string(1, c)); }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { return o.pad(string(1, (char)c)); }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) { return o.pad(string(s)); }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const string& s) { return o.pad(s); }
template <class C, class T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { return o.put('\n'); }
template <class C, class T> basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put(0); }
template <class C, class T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
#define SYMX_MANIP(n, f, m) inline ios_base& n(ios_base& b) { b.setf(f, m); return b; }
SYMX_MANIP(scientific, ios_base::scientific, ios_base::floatfield) SYMX_MANIP(fixed, ios_base::fixed, ios_base::floatfield) SYMX_MANIP(left, ios_base::left, ios_base::adjustfield) SYMX_MANIP(right, ios_base::right, ios_base::adjustfield) SYMX_MANIP(dec, ios_base::dec, ios_base::basefield) SYMX_MANIP(hex, ios_base::hex, ios_base::basefield) SYMX_MANIP(boolalpha, ios_base::boolalpha, ios_base::boolalpha) SYMX_MANIP(skipws, ios_base::skipws, ios_base::skipws)
inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
#undef SYMX_MANIP
template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
public:
  typedef typename T::int_type int_type;
  explicit basic_istream(basic_streambuf<C, T>* b) { this->init(b); }
  class sentry { bool _ok; public: explicit sentry(basic_istream& i, bool noskip = false) { if (i.good()) { if (!noskip) i.ws_(); } _ok = i.good(); if (!_ok) i.setstate(ios_base::failbit); } explicit operator bool() const { return _ok; } };
  void ws_() { for (;;) { int_type c = this->rdbuf()->sgetc(); if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit); return; } if (!symx::isSpace((char)c)) return; this->rdbuf()->sbumpc(); } }
  streamsize gcount() const { return _gc; }
  int_type get() { _gc = 0; int_type c = this->rdbuf()->sbumpc(); if (c == T::eof()) this->setstate(ios_base::eofbit | ios_base::failbit); else _gc = 1; return c; }
  int_type peek() { if (!this->good()) return T::eof(); int_type c = this->rdbuf()->sgetc(); if (c == T::eof()) this->setstate(ios_base::eofbit); return c; }
  basic_istream& get(C& c) { int_type x = get(); if (x != T::eof()) c = (C)x; return *this; }
  basic_istream& unget() { this->rdbuf()->sungetc(); return *this; }
  basic_istream& ignore(streamsize n = 1, int_type d = T::eof()) { for (streamsize i = 0; i < n; i++) { int_type c = this->rdbuf()->sbumpc(); if (c == T::eof()) { this->setstate(ios_base::eofbit); break; } if (c == d) break; } return *this; }
  bool _skip = false;   // the last number() failed before reading: the target keeps its value
  bool number(basic_string<C>& tok, bool real) { // longest run of characters that can belong to a number
    sentry s(*this); _skip = !s; if (_skip) return false;
    for (;;) { int_type x = this->rdbuf()->sgetc(); if (x == T::eof()) { this->setstate(ios_base::eofbit); break; } char c = (char)x;
      if (real && c == 1) { for (;;) { x = this->rdbuf()->sbumpc(); if (x == T::eof()) break; if ((char)x == 2) break; tok.push_back((char)x == 1 ? 1 : (char)x); } tok.push_back(2); break; }
      bool ok = (c >= '0' && c <= '9') || ((c == '+' || c == '-') && (tok.empty() || (real && (tok.back() == 'e' || tok.back() == 'E')))) || (real && (c == '.' || ((c == 'e' || c == 'E') && !tok.empty())));
      if (!ok) break; tok.push_back(c); this->rdbuf()->sbumpc(); }
    if (tok.empty()) { this->setstate(ios_base::failbit); return false; }
    return true; }
  bool integer(unsigned long& v, bool& neg) { basic_string<C> t; v = 0; neg = false; if (!number(t, false)) return false; size_t i = 0; if (t[0] == '+' || t[0] == '-') { neg = t[0] == '-'; i = 1; } if (i == t.size()) { this->setstate(ios_base::failbit); return false; } for (; i < t.size(); i++) v = v * 10 + (unsigned long)(t[i] - '0'); return true; }
  template <class I> basic_istream& rd(I& o) { unsigned long v; bool n; if (integer(v, n)) o = (I)(n ? 0 - v : v); else if (!_skip) o = 0; return *this; }
  basic_istream& operator>>(unsigned long& v) { return rd(v); } basic_istream& operator>>(long& v) { return rd(v); } basic_istream& operator>>(unsigned& v) { return rd(v); } basic_istream& operator>>(int& v) { return rd(v); } basic_istream& operator>>(unsigned short& v) { return rd(v); } basic_istream& operator>>(short& v) { return rd(v); } basic_istream& operator>>(unsigned long long& v) { return rd(v); } basic_istream& operator>>(long long& v) { return rd(v); }
  basic_istream& operator>>(bool& v) { unsigned long x = v; rd(x); v = x; return *this; }
  basic_istream& operator>>(double& v) { basic_string<C> t; if (number(t, true)) { char* e; v = strtod(t.c_str(), &e); if (*e) { v = 0; this->setstate(ios_base::failbit); } } else if (!_skip) v = 0; return *this; }
  basic_istream& operator>>(float& v) { double d = v; *this >> d; v = (float)d; return *this; }
  basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
protected: streamsize _gc = 0;
};
template <class T> basic_istream<char, T>& operator>>(basic_istream<char, T>& i, char& c) { typename basic_istream<char, T>::sentry s(i); if (s) { int x = i.rdbuf()->sbumpc(); if (x == -1) i.setstate(ios_base::eofbit | ios_base::failbit); else c = (char)x; } return i; }
template <class C, class T> basic_istream<C, T>& ws(basic_istream<C, T>& i) { i.ws_(); return i; }
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: explicit basic_iostream(basic_streambuf<C, T>* b) : basic_istream<C, T>(b), basic_ostream<C, T>(b) {} };
inline namespace __cxx11 {
template <class C, class T, class A> class basic_stringbuf : public basic_streambuf<C, T> {};
template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> { basic_stringbuf<C, T, A> _b; public:
  basic_stringstream() : basic_iostream<C, T>(&_b) {} explicit basic_stringstream(ios_base::openmode) : basic_iostream<C, T>(&_b) {} explicit basic_stringstream(const basic_string<C>& s, ios_base::openmode = 0) : basic_iostream<C, T>(&_b) { _b._own = s; }
  basic_string<C> str() const { return _b._own; } void str(const basic_string<C>& s) { _b._own = s; _b._r = 0; } };
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> { basic_stringbuf<C, T, A> _b; public:
  basic_ostringstream() : basic_ostream<C, T>(&_b) {} explicit basic_ostringstream(const basic_string<C>& s) : basic_ostream<C, T>(&_b) { _b._own = s; } basic_string<C> str() const { return _b._own; } void str(const basic_string<C>& s) { _b._own = s; } };
template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> { basic_stringbuf<C, T, A> _b; public:
  basic_istringstream() : basic_istream<C, T>(&_b) {} explicit basic_istringstream(const basic_string<C>& s) : basic_istream<C, T>(&_b) { _b._own = s; } basic_string<C> str() const { return _b._own; } void str(const basic_string<C>& s) { _b._own = s; _b._r = 0; } };
}
template <class C, class T> class basic_filebuf : public basic_streambuf<C, T> { public: bool _open = false;
  bool opn(const char* n, bool rd, bool app) { string* f = symx::vfile(n, !rd); if (!f) return false; if (!rd && !app) f->clear(); this->_ext = f; this->_r = 0; return _open = true; } };
template <class C, class T> class basic_ofstream : public basic_ostream<C, T> { basic_filebuf<C, T> _b; public:
  basic_ofstream() : basic_ostream<C, T>(&_b) {} explicit basic_ofstream(const char* n, ios_base::openmode m = ios_base::out) : basic_ostream<C, T>(&_b) { open(n, m); } explicit basic_ofstream(const string& n, ios_base::openmode m = ios_base::out) : basic_ostream<C, T>(&_b) { open(n.c_str(), m); }
  void open(const char* n, ios_base::openmode m = ios_base::out) { if (!_b.opn(n, false, m & ios_base::app)) this->setstate(ios_base::failbit); } void open(const string& n, ios_base::openmode m = ios_base::out) { open(n.c_str(), m); }
  bool is_open() const { return _b._open; } void close() { if (!_b._open) this->setstate(ios_base::failbit); _b._open = false; } };
template <class C, class T> class basic_ifstream : public basic_istream<C, T> { basic_filebuf<C, T> _b; public:
  basic_ifstream() : basic_istream<C, T>(&_b) {} explicit basic_ifstream(const char* n, ios_base::openmode = ios_base::in) : basic_istream<C, T>(&_b) { open(n); } explicit basic_ifstream(const string& n, ios_base::openmode = ios_base::in) : basic_istream<C, T>(&_b) { open(n.c_str()); }
  void open(const char* n) { if (!_b.opn(n, true, false)) this->setstate(ios_base::failbit); } void open(const string& n) { open(n.c_str()); } bool is_open() const { return _b._open; } void close() { if (!_b._open) this->setstate(ios_base::failbit); _b._open = false; } };
template <class C, class T> class basic_fstream : public basic_iostream<C, T> { basic_filebuf<C, T> _b; public: basic_fstream() : basic_iostream<C, T>(&_b) {} };
class strstreambuf : public basic_streambuf<char, char_traits<char>> {};
extern ostream cout, cerr, clog; extern istream cin;
struct _Setw { int n; }; inline _Setw setw(int n) { return _Setw{n}; } inline ostream& operator<<(ostream& o, _Setw s) { o.width(s.n); return o; }
struct _Setprecision { int n; }; inline _Setprecision setprecision(int n) { return _Setprecision{n}; } inline ostream& operator<<(ostream& o, _Setprecision s) { o.precision(s.n); return o; }
template <class C> struct _Setfill { C c; }; template <class C> _Setfill<C> setfill(C c) { return _Setfill<C>{c}; } inline ostream& operator<<(ostream& o, _Setfill<char> s) { o.fill(s.c); return o; }
template <> basic_istream<char>& operator>>(basic_istream<char>& in, basic_string<char>& s);
template <> basic_istream<char>& getline(basic_istream<char>& in, basic_string<char>& s, char d);
}
