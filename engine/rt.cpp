// Runtime support compiled to IR: the parts of libstdc++/libc that live in shared objects and are reached from the
// code under test.  Everything here is executed by the symbolic interpreter (or replaced by one of its built-ins).
#include "symx_io.h"
#include <map>
#include <list>
#include <unordered_map>
#include <cerrno>
#include <cstdlib>
#include <new>
#include <stdexcept>
#include <functional>
namespace symx {
static std::map<std::string, std::string>* g_files;
std::string* vfile(const char* name, bool create) { if (!g_files) g_files = new std::map<std::string, std::string>; auto it = g_files->find(name); if (it != g_files->end()) return &it->second; if (!create) return nullptr; return &(*g_files)[name]; }
bool isSpace(char c) { return c == ' ' || (c >= 9 && c <= 13); }
std::string fmtU(unsigned long v) { v = __sym_concretize(v); char b[24]; int n = 24; do { b[--n] = '0' + v % 10; v /= 10; } while (v); return std::string(b + n, 24 - n); }
}
namespace std {
static basic_streambuf<char> sx_null; 
ostream cout(&sx_null), cerr(&sx_null), clog(&sx_null); istream cin(&sx_null);
template <> basic_istream<char>& operator>>(basic_istream<char>& in, basic_string<char>& s) {
  istream::sentry se(in); if (!se) return in; s.clear(); 
  for (;;) { int c = in.rdbuf()->sgetc(); if (c == -1) { in.setstate(ios_base::eofbit); break; } if (symx::isSpace((char)c)) break; s.push_back((char)c); in.rdbuf()->sbumpc(); }
  if (s.empty()) in.setstate(ios_base::failbit); return in; }
template <> basic_istream<char>& getline(basic_istream<char>& in, basic_string<char>& s, char d) {
  istream::sentry se(in, true); if (!se) return in; s.clear(); bool any = false;
  for (;;) { int c = in.rdbuf()->sbumpc(); if (c == -1) { in.setstate(ios_base::eofbit); break; } any = true; if ((char)c == d) return in; s.push_back((char)c); }
  if (!any) in.setstate(ios_base::failbit); return in; }
// ---- red-black tree
static void rotL(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) { auto y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotR(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) { auto y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base*& root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    auto xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) { auto y = xpp->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); } }
    else { auto y = xpp->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); } }
  }
  root->_M_color = _S_black;
}
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base* dec_(_Rb_tree_node_base* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec_(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec_(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  // unbalanced removal is enough: the tree stays a search tree (colours only affect performance)
  _Rb_tree_node_base*& root = h._M_parent; auto y = z; _Rb_tree_node_base *x = 0, *xp = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else { auto t = x; while (t->_M_left) t = t->_M_left; h._M_left = t; } }
    if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else { auto t = x; while (t->_M_right) t = t->_M_right; h._M_right = t; } } }
  if (root) root->_M_color = _S_black; (void)xp; return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) throw() { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() throw() { auto n = _M_next, p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_reverse() throw() { auto t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) throw() { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) throw() { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { static const std::size_t pr[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033}; for (auto p : pr) if (p >= n) { _M_next_resize = p; return p; } __sym_nosuch("hash table size"); return 0; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const { if (ne + ni > nb) return {true, _M_next_bkt((ne + ni) * 2 > nb * 2 ? (ne + ni) * 2 : nb * 2)}; return {false, 0}; }
}
std::size_t _Hash_bytes(const void* p, std::size_t n, std::size_t seed) { unsigned long h = seed; const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) h = h * 131 + c[i]; return h; }
// ---- exceptions
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...);
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_alloc(); }
void __throw_bad_cast() { __sym_fatal("bad_cast"); __builtin_unreachable(); }
void __throw_bad_function_call() { __sym_fatal("bad_function_call"); __builtin_unreachable(); }
}
namespace std {
// ---- the classes of exceptions the code throws and asks what()
__cow_string::__cow_string() : _M_p(nullptr) {}
__cow_string::~__cow_string() {}
runtime_error::runtime_error(const char* s) { *(const char**)&_M_msg = s; }
runtime_error::runtime_error(const string& s) { static string keep; keep = s; *(const char**)&_M_msg = keep.c_str(); }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return *(const char* const*)&_M_msg; }
range_error::range_error(const char* s) : runtime_error(s) {}
range_error::range_error(const string& s) : runtime_error(s) {}
range_error::~range_error() noexcept {}
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
}
extern "C" __attribute__((used)) void symx_reset() { if (symx::g_files) symx::g_files->clear(); }   // after the warm-up run
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
template class std::basic_string<char>;   // every member, whatever the translation units left external
