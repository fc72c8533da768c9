// SmallVector against a plain array: every sequence of LL operations around the
// in-line/out-of-line boundary.
#include "vsym.h"
#include <cstring>
#include <algorithm>
#include "small_vector.h"
typedef SmallVectorInt V;
struct M { int n; int a[40]; };
static int val() { return (int)vs_int("v", -1000, 1000); }
static void same(const V& v, const M& m) {
  vs_assert(v.size() == (size_t)m.n && v.empty() == (m.n == 0), "the vector has as many elements as were stored");
  vs_assert(v.end() - v.begin() == m.n, "iteration covers every element");
  for (int i = 0; i < m.n; ++i) vs_assert(v[i] == m.a[i] && v.begin()[i] == m.a[i], "every element keeps its value");
  if (m.n) vs_assert(v.front() == m.a[0] && v.back() == m.a[m.n - 1], "front and back are the first and last elements");
}
static void fill(V& v, M& m, int n) { m.n = 0; for (int i = 0; i < n; ++i) { m.a[i] = val(); v.push_back(m.a[i]); ++m.n; } }
extern "C" void vs_harness() {
  static const int sz[] = {0, 1, 2, 3, 5}; static const int sb[] = {1, 2, 3, 6};
  V v, b; M m, mb; mb.n = 0; bool hasb = false;
  fill(v, m, sz[vs_choice("size", 5)]);
  for (int s = 0; s < LL; ++s) {
    const int op = vs_choice("op", 11);
    if ((op == 5 || op == 6 || op == 9) && !hasb) { hasb = true; fill(b, mb, sb[vs_choice("size2", 4)]); }
    if (op == 0) { const int x = val(); v.push_back(x); m.a[m.n++] = x; }
    else if (op == 1) { if (!m.n) vs_stop(); v.pop_back(); --m.n; }
    else if (op == 2) { const int n = vs_choice("n", 7), x = val(); v.resize(n, x); for (int i = m.n; i < n; ++i) m.a[i] = x; m.n = n; }
    else if (op == 3) { if (!m.n) vs_stop(); const int i = vs_choice("i", m.n); V::iterator it = v.erase(v.begin() + i); for (int k = i; k + 1 < m.n; ++k) m.a[k] = m.a[k + 1]; --m.n; vs_assert(it - v.begin() == i, "erase returns the position after the erased element"); }
    else if (op == 4) { const int i = vs_choice("i", m.n + 1), j = i + vs_choice("j", m.n - i + 1); V::iterator it = v.erase(v.begin() + i, v.begin() + j); for (int k = j; k < m.n; ++k) m.a[k - (j - i)] = m.a[k]; m.n -= j - i; vs_assert(it - v.begin() == i, "erase returns the position after the erased range"); }
    else if (op == 5) { v = b; m = mb; }
    else if (op == 6) { v.swap(b); std::swap(m, mb); }
    else if (op == 7) { v.clear(); m.n = 0; }
    else if (op == 8) { const int n = vs_choice("n", m.n + 1); v.compact(n); m.n = n; }
    else if (op == 9) { bool eq = m.n == mb.n; if (eq) for (int i = 0; i < m.n; ++i) if (m.a[i] != mb.a[i]) eq = false;
      vs_assert((v == b) == eq && (b == v) == eq && (v != b) == !eq, "vectors are equal exactly when their elements are"); }
    else { V c(v), d(v.begin(), v.end()), e(m.n, 7); same(c, m); same(d, m); vs_assert(c == v && hash_value(c) == hash_value(v), "a copy is equal and has the same hash"); for (int i = 0; i < m.n; ++i) vs_assert(e[i] == 7, "filling stores the given value"); vs_assert(e.size() == (size_t)m.n, "filling stores the given number"); c.push_back(1); if (m.n) { c[0] = 5; d[0] = 9; } v = v; }
    same(v, m);
  }
  if (hasb) same(b, mb);
  if (m.n > 2) vs_reach("remote"); else vs_reach("inline");
}
