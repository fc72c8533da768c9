// Alignment reading and writing, and every symmetrisation atools offers.
#include "vsym.h"
#include <set>
#include <sstream>
#define main atools_main
#include "utils/atools.cc"
#undef main
typedef Array2D<bool> G;
static bool at(const G& g, int i, int j) { return i >= 0 && j >= 0 && i < (int)g.width() && j < (int)g.height() && g(i, j); }
static G grid(const char* n, int w, int h) { G g(w, h); for (int i = 0; i < w; ++i) for (int j = 0; j < h; ++j) g(i, j) = vs_choice(n, 2); return g; }
static void ops(int wa, int ha, int wb, int hb) {
  const G a = grid("a", wa, ha), b = grid("b", wb, hb); const int W = max(wa, wb), H = max(ha, hb);
  { InvertCommand c; G x; c.Apply(a, b, &x); for (int i = -1; i <= W; ++i) for (int j = -1; j <= H; ++j) vs_assert(at(x, j, i) == at(a, i, j), "inverting swaps the two sides of every link"); }
  { ConvertCommand c; G x; c.Apply(a, b, &x); for (int i = 0; i < W; ++i) for (int j = 0; j < H; ++j) vs_assert(at(x, i, j) == at(a, i, j), "converting keeps every link"); }
  { IntersectCommand c; G x; c.Apply(a, b, &x); for (int i = 0; i < W; ++i) for (int j = 0; j < H; ++j) vs_assert(at(x, i, j) == (at(a, i, j) && at(b, i, j)), "the intersection has the links in both"); }
  { UnionCommand c; G x; c.Apply(a, b, &x); for (int i = 0; i < W; ++i) for (int j = 0; j < H; ++j) vs_assert(at(x, i, j) == (at(a, i, j) || at(b, i, j)), "the union has the links in either"); }
  { FMeasureCommand c; G x; c.Apply(a, b, &x); int m = 0, p = 0, r = 0; for (int i = 0; i < W; ++i) for (int j = 0; j < H; ++j) { m += at(a, i, j) && at(b, i, j); p += at(a, i, j); r += at(b, i, j); }
    vs_assert(c.matches == m && c.num_predicted == p && c.num_in_ref == r, "the statistics count links in both, in the hypothesis and in the reference"); c.Apply(b, b, &x); vs_assert(c.matches == m + r && c.num_predicted == p + r && c.num_in_ref == 2 * r, "the statistics add up over sentences"); }
  G gd, gdf, gdfa;
  { GDCommand c; c.Apply(G(3, 1, true), G(1, 3, true), &gd); c.Apply(a, b, &gd); } { GDFCommand c; c.Apply(a, b, &gdf); } { GDFACommand c; c.Apply(a, b, &gdfa); }
  const G* gs[] = {&gd, &gdf, &gdfa};
  int rows[4] = {0}, cols[4] = {0}, num[4] = {0};
  for (int k = 0; k < 4; ++k) { for (int i = 0; i < W; ++i) { bool r = false; for (int j = 0; j < H; ++j) { const bool v = k == 3 ? at(a, i, j) && at(b, i, j) : at(*gs[k], i, j); r |= v; num[k] += v; } rows[k] += r; } for (int j = 0; j < H; ++j) { bool r = false; for (int i = 0; i < W; ++i) r |= k == 3 ? at(a, i, j) && at(b, i, j) : at(*gs[k], i, j); cols[k] += r; } }
  for (int i = 0; i < W; ++i) for (int j = 0; j < H; ++j) {
    const bool in = at(a, i, j) && at(b, i, j), un = at(a, i, j) || at(b, i, j);
    for (int k = 0; k < 3; ++k) vs_assert((!in || at(*gs[k], i, j)) && (un || !at(*gs[k], i, j)), "a symmetrised alignment lies between the intersection and the union");
    vs_assert(!at(gd, i, j) || (at(gdf, i, j) && at(gdfa, i, j)), "the final step only adds links");
    bool ri[3] = {0}, cj[3] = {0}, nb = false; for (int k = 0; k < 3; ++k) { for (int y = 0; y < H; ++y) ri[k] |= at(*gs[k], i, y); for (int x = 0; x < W; ++x) cj[k] |= at(*gs[k], x, j); }
    for (int x = i - 1; x <= i + 1; ++x) for (int y = j - 1; y <= j + 1; ++y) if (x != i || y != j) nb |= at(gd, x, y);
    if (at(gd, i, j) && !in) vs_assert(nb, "grown links touch another link");
    if (un && !at(gd, i, j)) vs_assert((ri[0] && cj[0]) || !nb, "growing stops only when no neighbouring link would cover a new word");
    if (un && !at(gdf, i, j)) vs_assert(ri[1] && cj[1], "after the final step every left-out link has both words covered");
    if (un && !at(gdfa, i, j)) vs_assert(ri[2] || cj[2], "after the final-and step every left-out link has a word covered");
  }
  vs_assert(num[0] - num[3] <= rows[0] - rows[3] + cols[0] - cols[3], "every grown link covers a new word");
  vs_assert(num[1] - num[0] <= rows[1] - rows[0] + cols[1] - cols[0], "every link of the final step covers a new word");
  vs_assert(num[2] - num[0] == rows[2] - rows[0] && num[2] - num[0] == cols[2] - cols[0], "every link of the final-and step covers two new words");
  if (num[0] > num[3]) vs_reach("grown"); if (num[2] > num[0]) vs_reach("final-and");
}
static void io() { // writing and reading back; numbers of one and two digits, stray spaces, leading fields
  const int n = vs_choice("links", 3); int xs[2], ys[2]; string l = vs_choice("fields", 2) ? "a b ||| c-d ||| " : ""; G want(40, 40);
  for (int k = 0; k < n; ++k) { xs[k] = (int)vs_concrete(vs_int("x", 0, 3)) * 11; ys[k] = (int)vs_concrete(vs_int("y", 0, 3)) * 7; want(xs[k], ys[k]) = true; ostringstream o; o << xs[k] << '-' << ys[k]; if (k) l += vs_choice("sp", 2) ? "  " : " "; l += o.str(); }
  if (n && vs_choice("trail", 2)) l += " ";
  boost::shared_ptr<G> g = AlignmentIO::ReadPharaohAlignmentGrid(l);
  for (int i = 0; i < 40; ++i) for (int j = 0; j < 40; ++j) vs_assert(at(*g, i, j) == want(i, j), "reading yields exactly the listed links");
  ostringstream o; AlignmentIO::SerializePharaohFormat(*g, &o); string s = o.str(); vs_assert(!s.empty() && s[s.size() - 1] == '\n', "an alignment is one line"); s.erase(s.size() - 1);
  boost::shared_ptr<G> h = AlignmentIO::ReadPharaohAlignmentGrid(s); vs_assert(h->width() == g->width() && h->height() == g->height(), "a written alignment has the same size");
  for (int i = 0; i < 40; ++i) for (int j = 0; j < 40; ++j) vs_assert(at(*h, i, j) == want(i, j), "a written alignment reads back");
  vs_reach("io");
}
extern "C" void vs_harness() {
  switch (vs_choice("part", 4)) { case 0: io(); break; case 1: ops(2, 2, 2, 2); break; case 2: ops(1, 3, 3, 1); break; default: ops(WA, HA, WB, HB); }
}
