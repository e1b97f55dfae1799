// @bounds texts of 0..5 (thorough 0..6) arbitrary characters from the classes that matter (blank, tab, delimiters, letters of both cases, digits, line ends, bytes above 127); delimiter sets {comma} and {comma, semicolon}; field width lists of up to three fields of 1..3 characters
// @outside longer texts (except single tokens of 300 to 70000 characters); locales other than "C"
#include "symx.h"
#include "FEReaders.h"
#include <sstream>
static const int N = THOROUGH ? 6 : 5;
static std::string text(const char* cls, int lo, int hi, const char* name = "c") { int n = pickU("length", lo, hi); std::string s; for (int i = 0; i < n; i++) { char c = symC(name); bool in = false; for (const char* p = cls; *p; p++) in = in | (c == *p); assume(in); s.push_back(c); } return s; }
static bool blank(char c) { return (c == ' ') | (c == '\t'); }
// the part of s[a,b) without blanks at its ends
static std::string core(const std::string& s, size_t a, size_t b) { while (a < b && blank(s[a])) a++; while (b > a && blank(s[b - 1])) b--; std::string r; for (; a < b; a++) r.push_back(s[a]); return r; }
static char low(char c) { return c == 'B' ? 'b' : c == 'Z' ? 'z' : c; }
static bool same(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]); return r; }
HARNESS(trim) { std::string s = text(" \ta1,", 0, N), t = s, want = core(s, 0, s.size()); std::string& r = strim(t); CK(&r == &t, "trims in place"); CK(same(t, want), "blanks at both ends are removed, nothing else"); CK(same(strim(std::string(s)), want), "same for a temporary"); strim(t); CK(same(t, want), "trimming again changes nothing"); char f = sfirstNotBlank(s); CK(want.empty() ? f == 0 : f == want[0], "first character that is not blank"); REACH("end"); }
HARNESS(cases) { std::string s = text("bBzZ-1 ", 0, N), l = s, u = s; std::string &a = stolower(l), &b = stoupper(u); CK((&a == &l) & (&b == &u), "converts in place"); CK((l.size() == s.size()) & (u.size() == s.size()), "length is kept"); for (size_t i = 0; i < s.size(); i++) { char c = s[i]; CK(l[i] == low(c), "lower case"); CK(u[i] == (c == 'b' ? 'B' : c == 'z' ? 'Z' : c), "upper case"); } CK(iequals(s, l) & iequals(u, s), "equal without regard to case"); REACH("end"); }
HARNESS(iequal) { std::string a = text("bBz1", 0, 3, "a"), b = text("bBz1", 0, 3, "b"); bool want = a.size() == b.size(); if (want) for (size_t i = 0; i < a.size(); i++) want = want & (low(a[i]) == low(b[i])); CK(iequals(a, b) == want, "comparison without regard to case"); CK(iequals(b, a) == want, "comparison is symmetric"); REACH("end"); }
HARNESS(tokenize) { bool two = pickB("semicolon"), lower = pickB("tolower"); Tokenizer t; t.delimiters.insert(','); if (two) t.delimiters.insert(';'); t.tolower = lower; for (int rep = 0; rep < 2; rep++) { std::string s = rep ? std::string("x,y;z , ") : text(" ,;B", 0, N); int n = t.tokenize(s); std::vector<std::string> w; std::string d; size_t st = 0; for (size_t i = 0; i <= s.size(); i++) if (i == s.size() || s[i] == ',' || (two && s[i] == ';')) { w.push_back(core(s, st, i)); if (i < s.size()) d.push_back(s[i]); st = i + 1; }
    CK((size_t)n == w.size(), "number of tokens"); CK(t.tokens.size() == w.size() && t.dtokens.size() == d.size(), "one token between two delimiters"); for (size_t i = 0; i < w.size(); i++) { std::string e = w[i]; if (lower) for (auto& c : e) c = low(c); CK(same(t.tokens[i], e), "token text without blanks around it"); } for (size_t i = 0; i < d.size(); i++) CK(t.dtokens[i] == d[i], "delimiter that was met"); } REACH("end"); }
HARNESS(token_values) { Tokenizer t; t.delimiters.insert(','); char a = symC("digit"), b = symC("digit"); assume((a >= '1') & (a <= '9') & (b >= '0') & (b <= '9')); bool neg = pickB("negative"); std::string s = std::string("x, ") + (neg ? "-" : "") + a + b + " ,  -2.5e1 , 0." + (char)('0' + pickU("d", 0, 9)); int n = t.tokenize(s); CK(n == 4, "four tokens"); CK(t.tokenInt(1) == (neg ? -1 : 1) * ((a - '0') * 10 + (b - '0')), "integer token"); CK(t.tokenDouble(2) == -25, "real token"); NEAR(t.tokenDouble(3), (t.tokens[3][2] - '0') / 10., 1e-15, "real token"); bool threw = false; try { t.tokenInt(0); } catch (const std::invalid_argument&) { threw = true; } CK(threw, "text is not taken for a number"); REACH("end"); }
HARNESS(fields) { std::vector<int> w; int nf = pickU("fields", 1, 3), tot = 0; for (int i = 0; i < nf; i++) { int x = pickU("width", 1, i ? 2 : 3); w.push_back(x); tot += x; } std::string s = text(" 1a", 0, N); bool strict = pickB("strict"); size_t need = 0, full = 0; for (int i = 0; i < nf; i++) { if (need + w[i] > s.size()) break; need += w[i]; full++; } bool bad = full < (size_t)nf && (strict || s.size() != need); if (bad) __sym_expect_fatal(1); auto v = ssplit(s, w, strict); CK(!bad, "incomplete line is refused"); CK(v.size() == full, "number of fields"); size_t at = 0; for (size_t i = 0; i < v.size(); i++) { CK(v[i].size() == (size_t)w[i], "width of a field"); for (int k = 0; k < w[i]; k++) CK(v[i][k] == s[at + k], "field text"); at += w[i]; } REACH("end"); }
// lines of a text with any mixture of line ends
HARNESS(lines) { std::string s = text("\r\na\xe9\xff", 0, N); std::vector<std::string> want; std::string cur; bool open = false; for (size_t i = 0; i < s.size(); i++) { char c = s[i]; if (c == '\n') { want.push_back(cur); cur.clear(); open = false; } else if (c == '\r') { want.push_back(cur); cur.clear(); open = false; if (i + 1 < s.size() && s[i + 1] == '\n') i++; } else { cur.push_back(c); open = true; } } if (open) want.push_back(cur);
  std::stringstream in(s); std::string l; size_t n = 0; while (!getLine(in, l).eof()) { CK(n < want.size(), "no line is invented"); if (n >= want.size()) return; CK(same(l, want[n]), "text of a line without its end"); n++; if (n > s.size()) break; } CK(n == want.size(), "every line is read, also the last one without an end"); REACH("end"); }
// pieces between the signs "(),", a remark starts with '!'; blanks around a piece do not count
static std::string unblank(const std::string& s) { size_t a = 0, b = s.size(); while (a < b && s[a] == ' ') a++; while (b > a && s[b - 1] == ' ') b--; return s.substr(a, b - a); }
static void pieces(const std::string& s) { std::vector<char> c(s.begin(), s.end()); c.push_back(0); std::vector<std::string> v = read_tokens(c.data()), w; std::string cur; for (char x : s) { if (x == '!') break; if ((x == '(') | (x == ')') | (x == ',')) { w.push_back(cur); w.push_back(std::string(1, x)); cur.clear(); } else cur.push_back(x); } w.push_back(cur); CK(v.size() == w.size(), "number of pieces and signs"); for (size_t i = 0; i < v.size() && i < w.size(); i++) CK(same(unblank(v[i]), unblank(w[i])) && v[i].size() <= w[i].size(), "text of a piece"); CK(std::equal(s.begin(), s.end(), c.begin()), "the text is left as it was"); REACH("end"); }
HARNESS(signs) { pieces(text(" (),!a", 0, N - 1)); }
HARNESS(signs_long) { static const int L[4] = {300, 32767, 32768, 70000}; int n = L[pickU("length", 0, 3)]; std::string f(n, 'x'); if (pickB("blanks")) f = std::string(n, ' ') + "y"; pieces(text("a ,", 1, 1, "first") + f + text("b )", 1, 1, "last") + "z"); }
HARNESS(unspace) { std::string s = text(" a\t", 0, N), t = s, w = unblank(s); del_spaces(t); CK(same(unblank(t), w) && t.size() <= s.size() && (w.empty() || same(t, w)), "spaces at both ends are removed"); REACH("end"); }
