// @bounds vectors of 0..4 elements (and one of 65600, looked at in six places), views at every offset and length, every history of the listed operations (construction, copy, move, assignment between owners/views/empty vectors of equal and different sizes, refill, re-initialisation); values in [-1e6,1e6] over exact reals
// @outside views used after their owner was released; rounding of double arithmetic; allocation failure
// @assume sizes match where the code asserts it
#include "symx.h"
#include "math/Vec.h"
#include <utility>
using namespace nla3d; using namespace nla3d::math;
static double D(const char* n) { return symD(n, -1e6, 1e6); }
static void fill(dVec& a, double* v, const char* n) { for (uint32 i = 0; i < a.size(); i++) a[i] = v[i] = D(n); }
static void same(const dVec& a, const double* v, uint32 n, const char* l) { CK(a.size() == n, l); for (uint32 i = 0; i < n; i++) EQ(a[i], v[i], l); }
HARNESS(construct) { uint32 n = pickU("n", 0, 4); double x = D("x"); dVec e; CK(!e.isInit() && e.size() == 0, "default vector is empty"); dVec a(n, x); CK(a.isInit() && a.size() == n, "size of a new vector"); for (uint32 i = 0; i < n; i++) EQ(a[i], x, "initial value"); a.zero(); for (uint32 i = 0; i < n; i++) EQ(a[i], 0, "zero()"); dVec b(n); for (uint32 i = 0; i < n; i++) EQ(b[i], 0, "default initial value"); a.clear(); CK(!a.isInit() && a.size() == 0, "clear()"); a.reinit(2, x); EQ(a[1], x, "reinit after clear"); REACH("end"); }
HARNESS(view) {
  uint32 n = pickU("n", 1, 4), s = pickU("s", 0, 4), l = pickU("l", 0, 4); assume(s + l <= n); double v[4]; dVec a(n); fill(a, v, "a"); { dVec w(a, s, l); CK(w.size() == l, "view size"); for (uint32 i = 0; i < l; i++) EQ(w[i], v[s + i], "view reads the owner"); if (l) { CK(w.ptr() == a.ptr() + s, "view shares storage"); double x = D("x"); w[l - 1] = x; v[s + l - 1] = x; } same(a, v, n, "write through a view changes exactly that element"); double y = D("y"); w.fill(y); for (uint32 i = 0; i < l; i++) v[s + i] = y; same(a, v, n, "fill of a view stays inside it"); w.reinit(a, 0, n); CK(w.size() == n, "view re-initialised"); }
  same(a, v, n, "owner survives its view"); dVec u(a, s, l); u.clear(); same(a, v, n, "clear of a view leaves the owner"); dVec t(a, s, l); t.reinit(3, 1.0); same(a, v, n, "reinit of a view detaches it"); if (n) t[0] = D("z"); same(a, v, n, "detached view is independent"); REACH("end");
}
HARNESS(copy_move) {
  uint32 n = pickU("n", 0, 3); double v[4]; dVec a(n); fill(a, v, "a"); { dVec b(a); same(b, v, n, "copy equals source"); if (n) { b[0] = D("x"); same(a, v, n, "copy is independent of source"); } }
  same(a, v, n, "source survives destruction of its copy"); if (n >= 2) { dVec w(a, 1, n - 1); dVec c(w); same(c, v + 1, n - 1, "copy of a view holds its values"); c[0] = D("y"); same(a, v, n, "copy of a view is independent"); }
  dVec m(std::move(a)); same(m, v, n, "move keeps the values"); CK(!a.isInit() && a.size() == 0, "moved-from vector is empty"); a.reinit(1, 2.0); same(m, v, n, "moved-from vector can be reused"); dVec e; dVec f(e); CK(!f.isInit(), "copy of an empty vector is empty"); REACH("end");
}
HARNESS(assign) {
  uint32 n = pickU("n", 0, 3), m = pickU("m", 0, 3); double v[4], w[4]; dVec a(n), b(m); fill(a, v, "a"); fill(b, w, "b"); a = b; same(a, w, m, "assignment copies size and values"); same(b, w, m, "assignment leaves the source"); if (m) { a[0] = D("x"); same(b, w, m, "assignment copies, it does not share"); a[0] = w[0]; } a = a; same(a, w, m, "self-assignment"); dVec e; a = e; CK(!a.isInit() && a.size() == 0, "assigning an empty vector empties"); dVec f; f = b; same(f, w, m, "assignment to an empty vector"); e = f; same(e, w, m, "assignment chain"); REACH("end");
}
HARNESS(assign_view) {
  uint32 n = pickU("n", 2, 4), l = pickU("l", 1, 3), s = pickU("s", 0, 3), k = pickU("k", 0, 4); assume(s + l <= n); double v[4], w[4]; dVec a(n), b(k); fill(a, v, "a"); fill(b, w, "b"); dVec view(a, s, l); view = b; same(view, w, k, "assigned view holds the values"); if (k == l) for (uint32 i = 0; i < l; i++) v[s + i] = w[i]; same(a, v, n, "assignment to a view changes only the viewed range, and only when the sizes match"); REACH("end");
}
HARNESS(arithmetic) {
  uint32 n = pickU("n", 0, 3); double v[4], w[4], k = D("k"); dVec a(n), b(n); fill(a, v, "a"); fill(b, w, "b"); dVec c = a + b, d = a - b, e = -a, f = a * k, g = k * a; for (uint32 i = 0; i < n; i++) { EQ(c[i], v[i] + w[i], "+"); EQ(d[i], v[i] - w[i], "-"); EQ(e[i], -v[i], "negation"); EQ(f[i], v[i] * k, "* scalar"); EQ(g[i], v[i] * k, "scalar *"); }
  double q = symD("q", 0.125, 9); dVec h = a / q; for (uint32 i = 0; i < n; i++) EQ(h[i] * q, v[i], "/ scalar"); same(a, v, n, "operands unchanged"); same(b, w, n, "operands unchanged"); a += b; for (uint32 i = 0; i < n; i++) EQ(a[i], v[i] + w[i], "+="); a -= b; a -= b; for (uint32 i = 0; i < n; i++) EQ(a[i], v[i] - w[i], "-="); a += a; for (uint32 i = 0; i < n; i++) EQ(a[i], 2 * (v[i] - w[i]), "+= itself"); REACH("end");
}
HARNESS(compare) { uint32 n = pickU("n", 0, 3), m = pickU("m", 0, 3); double th = symD("th", 0, 2), v[4], w[4]; dVec a(n), b(m); fill(a, v, "a"); fill(b, w, "b"); bool eq = n == m; if (eq) for (uint32 i = 0; i < n; i++) { double d = v[i] - w[i]; d = d < 0 ? -d : d; assume((d - th > 1e-6) | (th - d > 1e-6)); eq = eq & (d <= th); } CK(a.compare(b, th) == eq, "compare: equal size and every difference within the threshold"); REACH("end"); }
// sizes and offsets are not cut to 16 bits
HARNESS(long_vector) { const uint32 NB = 65600; static const uint32 AT[6] = {0, 63, 255, 65534, 65536, 65599}; dVec a(NB, 1.0), b(NB); uint32 k = AT[pickU("at", 0, 5)]; CK(a.size() == NB, "size beyond 65535"); double x = D("x"), y = D("y"), z = D("z"); a[k] = x; b[k] = y; dVec c = a + b, d = a * z, e(a), f; f = a; dVec w(a, k, NB - k), v; v.reinit(a, 0, NB); CK(c.size() == NB && d.size() == NB && e.size() == NB && f.size() == NB && w.size() == NB - k && v.size() == NB, "size beyond 65535"); for (uint32 t = 0; t < 6; t++) { uint32 i = AT[t]; bool h = i == k; EQ(c[i], h ? x + y : 1.0, "sum"); EQ(d[i], h ? x * z : z, "scaled"); EQ(e[i], h ? x : 1.0, "copy"); EQ(f[i], h ? x : 1.0, "assigned"); EQ(v[i], h ? x : 1.0, "view"); } EQ(w[0], x, "view far into the vector"); a -= b; EQ(a[k], x - y, "-="); a.zero(); EQ(a[NB - 1], 0, "zero"); EQ(a[k], 0, "zero"); f[k] = z; e[k] = y; assume((y - z > 0.51) | (z - y > 0.51)); CK(!e.compare(f, 0.5) && f.compare(f, 0.5), "compare looks at every element"); REACH("end"); }
