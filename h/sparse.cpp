// Sparse vectors against a map: every sequence of LL operations from several
// starting sizes around the point where storage moves out of line.
#include "vsym.h"
#include <map>
#include <vector>
#include "fast_sparse_vector.h"
#include "sparse_vector.h"
typedef SparseVector<double> V; typedef std::map<unsigned, double> M;
static double val() { return vs_fix("v", -8, 8, 0); }
static double get(const M& m, unsigned k) { M::const_iterator i = m.find(k); return i == m.end() ? 0 : i->second; }
static const unsigned KMAX = 12; // indices past the largest stored one included
static void same(const V& v, const M& m) {
  vs_assert(v.size() == m.size() && v.empty() == m.empty(), "the vector stores as many entries as were set");
  M got; for (V::const_iterator i = v.begin(); i != v.end(); ++i) { vs_assert(!got.count(i->first), "iteration visits no index twice"); got[i->first] = i->second; }
  vs_assert(got.size() == m.size(), "iteration visits every stored entry");
  for (M::const_iterator i = m.begin(); i != m.end(); ++i) vs_assert(got.count(i->first) && got[i->first] == i->second, "iteration yields the stored values");
  for (unsigned k = 0; k <= KMAX; ++k) vs_assert(v.value(k) == get(m, k) && v.get(k) == get(m, k), "the value of an index is what was stored, and zero elsewhere");
  for (unsigned k = 1; k <= KMAX; k += 5) { V::const_iterator i = v.find(k); vs_assert((i != v.end()) == (m.count(k) > 0), "find succeeds exactly on stored indices"); if (m.count(k)) vs_assert(i->second == get(m, k), "find yields the stored value"); }
}
static void fill(V& v, M& m, int n, int from) { for (int i = 0; i < n; ++i) { const double x = val(); v.set_value(from + i, x); m[from + i] = x; } }
// integer-valued vectors: quotients, maxima
static void ints() {
  static const int sz[] = {2, 15, 16}; static const int dv[] = {1, 3, -2, 7};
  const int n = sz[vs_choice("size", 3)], d = dv[vs_choice("divisor", 4)]; SparseVector<int> v; std::vector<int> x;
  for (int i = 0; i < n; ++i) { x.push_back(vs_int("v", -64, 64)); v.set_value(i, x[i]); }
  v /= d; bool ok = true; for (int i = 0; i < n; ++i) ok &= v.value(i) == x[i] / d; vs_assert(ok, "dividing a vector divides each value");
  SparseVector<int> q(v); q *= d; ok = true; for (int i = 0; i < n; ++i) ok &= q.value(i) == x[i] / d * d; vs_assert(ok && (int)q.size() == n, "multiplying a vector multiplies each value");
  SparseVector<int> r = v * d, t = v / d; ok = true; for (int i = 0; i < n; ++i) ok &= r.value(i) == x[i] / d * d && t.value(i) == x[i] / d / d; vs_assert(ok, "products and quotients with a number apply to each value");
  vs_reach("ints");
}
extern "C" void vs_harness() {
  if (vs_choice("type", 2) == 0) { ints(); return; }
  static const int sz[] = {1, 7, 8}; static const int sb[] = {2, 8};
  V v, b; M m, mb;
  const int na = sz[vs_choice("size", 3)];
  fill(v, m, na, 1);
  bool hasb = false;
  for (int step = 0; step < LL; ++step) {
    const int op = vs_choice("op", 15);
    if ((op == 4 || op == 5 || op == 7 || op == 8 || op == 9 || op == 11 || op == 12 || op == 13) && !hasb) { hasb = true; fill(b, mb, sb[vs_choice("size2", 2)], 5); }
    const unsigned k = op <= 3 ? (vs_choice("key", 3) * 5 + 1) : 0; // 1, 6, 11
    if (op == 0) { const double x = val(); v.set_value(k, x); m[k] = x; }
    else if (op == 1) { const double x = val(); const double r = v.add_value(k, x); m[k] = get(m, k) + x; vs_assert(r == m[k], "adding returns the new value"); }
    else if (op == 2) { v.erase(k); m.erase(k); }
    else if (op == 3) { const double r = v[k]; vs_assert(r == get(m, k), "subscript reads the stored value"); m[k] = get(m, k); }
    else if (op == 4) { v += b; for (M::iterator i = mb.begin(); i != mb.end(); ++i) m[i->first] += i->second; }
    else if (op == 5) { v -= b; for (M::iterator i = mb.begin(); i != mb.end(); ++i) m[i->first] -= i->second; }
    else if (op == 6) { const double s = 2; v *= s; for (M::iterator i = m.begin(); i != m.end(); ++i) i->second *= s; }
    else if (op == 7) { v.plus_eq_v_times_s(b, -3.0); for (M::iterator i = mb.begin(); i != mb.end(); ++i) m[i->first] += i->second * -3; }
    else if (op == 8) { v.swap(b); m.swap(mb); }
    else if (op == 9) { v = b; m = mb; }
    else if (op == 10) { v.clear(); m.clear(); }
    else if (op == 11) { V c = v + b; M mc = m; for (M::iterator i = mb.begin(); i != mb.end(); ++i) mc[i->first] += i->second; same(c, mc); V d(c); same(d, mc); V e = v - b; M me = m; for (M::iterator i = mb.begin(); i != mb.end(); ++i) me[i->first] -= i->second; same(e, me); }
    else if (op == 12) { double want = 0; for (M::iterator i = m.begin(); i != m.end(); ++i) if (i->first & 1) want += 2 * i->second; std::vector<double> w(10); for (int i = 0; i < 10; ++i) w[i] = i & 1 ? 2 : 0; double w2 = 0; for (M::iterator i = m.begin(); i != m.end(); ++i) if ((i->first & 1) && i->first < 10) w2 += 2 * i->second;
      vs_assert(v.dot(w) == w2, "the dot product with a dense vector is the sum over common indices");
      V u; for (unsigned i = 1; i <= KMAX; i += 2) u.set_value(i, 2); vs_assert(v.dot(u) == want && u.dot(v) == want, "the dot product is the sum over common indices, either way round"); }
    else if (op == 13) { bool eq = true; for (unsigned i = 0; i <= KMAX; ++i) if (m.count(i) != mb.count(i) || get(m, i) != get(mb, i)) eq = false; 
      vs_assert((v == b) == eq && (b == v) == eq, "two vectors are equal exactly when they store the same entries"); V c(v); vs_assert(c == v, "a copy is equal to its original"); }
    else { v.add_value(12, 1); v += v; m[12] = get(m, 12) + 1; for (M::iterator i = m.begin(); i != m.end(); ++i) i->second *= 2; std::vector<double> d; v.init_vector(d); for (unsigned i = 0; i < d.size(); ++i) vs_assert(d[i] == get(m, i), "the dense form has the same values"); vs_assert(d.size() == 13, "the dense form reaches the last index"); }
    same(v, m);
  }
  V c(v); c.add_value(3, 1); if (hasb) same(b, mb); same(v, m); // copies are independent
  if (m.size() > 7) vs_reach("remote");
}
