// Index remapping and two-dimensional arrays.
#include "vsym.h"
#include <vector>
#include <string>
#include "indices_after.h"
#include "array2d.h"
using namespace std;
static void removing() {
  const int n = vs_choice("n", NN + 1); vector<bool> keep(n); vector<int> v(n), want; vector<int> idx(n, -1); for (int i = 0; i < n; ++i) { keep[i] = vs_choice("keep", 2); v[i] = (int)vs_int("v", -99, 99); if (keep[i]) { idx[i] = want.size(); want.push_back(v[i]); } }
  indices_after a(keep);
  vs_assert(n == 0 || a.n_kept == want.size(), "as many elements are kept as were marked");
  for (int i = 0; i < n; ++i) { vs_assert(a.keeping(i) == keep[i] && a.removing(i) == !keep[i], "exactly the marked elements are kept"); if (keep[i]) vs_assert(a[i] == (unsigned)idx[i], "kept elements are renumbered in order"); }
  vector<int> x(v), y(v), z; a.do_moves(x); a.do_moves_swap(y); a.copy_to(z, v); vs_assert(x.size() == want.size() && y.size() == want.size() && z.size() == want.size(), "the result has the kept elements only");
  for (size_t i = 0; i < want.size(); ++i) vs_assert(x[i] == want[i] && y[i] == want[i] && z[i] == want[i], "kept elements stay in order");
  if (n) { vector<unsigned> in, out; for (int k = 0; k < 3; ++k) in.push_back(vs_choice("idx", n)); a.reindex_push_back(in, out); size_t j = 0; for (int k = 0; k < 3; ++k) if (keep[in[k]]) { vs_assert(j < out.size() && out[j] == (unsigned)idx[in[k]], "indices are translated"); ++j; } vs_assert(j == out.size(), "indices of removed elements are dropped"); }
  vs_reach("removing");
}
static void array() {
  const int w = 1 + vs_choice("w", 3), h = 1 + vs_choice("h", 3); Array2D<int> a(w, h, 5); int m[3][3]; for (int i = 0; i < w; ++i) for (int j = 0; j < h; ++j) { vs_assert(a(i, j) == 5, "cells start at the given value"); m[i][j] = (int)vs_int("c", -9, 9); }
  for (int i = 0; i < w; ++i) for (int j = 0; j < h; ++j) a(i, j) = m[i][j];
  Array2D<int> b(a), c; c = a; for (int i = 0; i < w; ++i) for (int j = 0; j < h; ++j) vs_assert(a(i, j) == m[i][j] && b(i, j) == m[i][j] && c(i, j) == m[i][j], "cells are independent and copies equal");
  vs_assert((int)a.width() == w && (int)a.height() == h && (int)c.width() == w, "the dimensions are the given ones");
  for (int j = 0; j < h; ++j) { int i = 0; for (Array2D<int>::iterator k = a.begin_col(j); k != a.end_col(j); ++k, ++i) vs_assert(*k == m[i][j], "a column iterates over its cells"); vs_assert(i == w, "a column has all its cells"); const Array2D<int>& k = a; i = 0; for (Array2D<int>::const_iterator x = k.begin_col(j); x != k.end_col(j) && i <= w; ++x, ++i) vs_assert(i < w && *x == m[i][j], "a column of a constant array iterates over its cells"); vs_assert(i == w, "a column of a constant array has all its cells"); }
  b.fill(3); vs_assert(b(w - 1, h - 1) == 3 && b(0, 0) == 3 && a(0, 0) == m[0][0], "filling sets every cell"); b.clear(); vs_assert(b.empty() && b.width() == 0, "clearing empties"); vs_reach("array");
}
extern "C" void vs_harness() { if (vs_choice("part", 2)) array(); else removing(); }
