// Tree fragments: bracketed text, spans, iteration, annotations on rules.
#include "hgh.h"
#include "tree_fragment.h"
#include <sstream>
#include <new>
using namespace cdec;
extern "C" void vs_setup() { SetSilent(true); const char* w[] = {"S", "NP", "VP", "a", "b[", "[c", "F1", "X"}; for (int i = 0; i < 8; ++i) TD::Convert(w[i]); std::cerr.setstate(std::ios::failbit); }
struct T { std::string lab; int kind; std::vector<T> c; unsigned id() const { return sym ? sym : TD::Convert(lab); } unsigned sym; T() : kind(), sym() {} }; // 0 node, 1 word, 2 open site
static int budget;
static const char* L[] = {"S", "NP"}; static const char* W[] = {"a", "b["};
static T node(int depth, bool sites) { T t; t.kind = 0; t.lab = L[depth & (budget & 1)]; if (budget < 1) budget = 1; const int n = 1 + vs_choice("children", std::min(3, budget));
  budget -= n; for (int i = 0; i < n; ++i) { const int k = vs_choice("kind", sites ? 3 : 2); if (k == 0 && depth < 3) t.c.push_back(node(depth + 1, sites)); else if (k == 1 || k == 0) { T w; w.kind = 1; w.lab = W[i % 2]; t.c.push_back(w); } else { T w; w.kind = 2; w.lab = "NP"; t.c.push_back(w); } } return t; }
static T fixed(const char*& p, int pick) { // digits: a word, an open site or a small tree, by choice
  T t; t.kind = 0; ++p; while (*p != ' ') t.lab += *p++; while (*p != ')') { if (*p == ' ') ++p; else if (*p == '(') t.c.push_back(fixed(p, pick)); else if (*p == '?') { ++p; T w; const int k = vs_choice("kind", pick); w.kind = k == 2 ? 0 : k + 1; w.lab = k == 0 ? "a" : "NP"; if (k == 2) { T x; x.kind = 1; x.lab = "b["; w.c.push_back(x); } t.c.push_back(w); } else { T w; w.kind = 1; w.lab = *p++ == 'a' ? "a" : "b["; t.c.push_back(w); } } ++p; return t; }
static const char* kF[] = {"(S a (NP (NP (NP ?) (VP a))))", "(S (NP ?) (VP (NP a b) ?) (VP (VP ?) a) b)", "(S ? (VP (VP (VP a ?) b)) (NP a))", "(S (S ? a) (NP (NP (S b)) ?))", "(S a a b ? (VP ?) a b ?)"};
static std::string print(const T& t, int sp) { if (t.kind == 1) return t.lab; if (t.kind == 2) return "[" + t.lab + "]"; std::string s = "(" + std::string(sp == 1, ' ') + t.lab; for (unsigned i = 0; i < t.c.size(); ++i) s += (sp == 2 && t.c[i].kind == 0 ? "" : sp ? "  " : " ") + print(t.c[i], sp); return s + (sp == 1 ? " )" : ")"); }
static int count(const T& t, int kind) { int n = t.kind == kind; for (unsigned i = 0; i < t.c.size(); ++i) n += count(t.c[i], kind); return n; }
static void df(const T& t, std::vector<unsigned>& o) { // labels in depth-first order: a node is announced in its parent, then opened
  o.push_back(t.id() | LHS_BIT);
  for (unsigned i = 0; i < t.c.size(); ++i) { const unsigned x = t.c[i].id(); if (t.c[i].kind == 1) o.push_back(x); else if (t.c[i].kind == 2) o.push_back(x | FRONTIER_BIT); else { o.push_back(x | RHS_BIT); df(t.c[i], o); } } }
static void bf(const T& t, std::vector<unsigned>& o) { std::vector<const T*> q(1, &t); for (unsigned h = 0; h < q.size(); ++h) { const T& u = *q[h]; o.push_back(u.id() | LHS_BIT);
    for (unsigned i = 0; i < u.c.size(); ++i) { const unsigned x = u.c[i].id(); if (u.c[i].kind == 1) o.push_back(x); else if (u.c[i].kind == 2) o.push_back(x | FRONTIER_BIT); else { o.push_back(x | RHS_BIT); q.push_back(&u.c[i]); } } } }
static bool match(const TreeFragment& f, unsigned n, const T& t, int* pos, bool spans) { // structure and spans
  if (n >= f.nodes.size()) return false; const TreeFragmentProduction& p = f.nodes[n]; const int left = *pos; bool ok = (p.lhs & ALL_MASK) == (unsigned)t.id() && p.rhs.size() == t.c.size(); if (!ok) return false;
  for (unsigned i = 0; i < t.c.size(); ++i) { const unsigned x = t.c[i].id(); if (t.c[i].kind == 1) { ok &= p.rhs[i] == x && IsTerminal(p.rhs[i]); ++*pos; } else if (t.c[i].kind == 2) { ok &= p.rhs[i] == (x | FRONTIER_BIT) && IsFrontier(p.rhs[i]); ++*pos; } else { ok &= IsRHS(p.rhs[i]) && match(f, p.rhs[i] & ALL_MASK, t.c[i], pos, spans); } }
  if (spans) ok &= p.span.first == left && p.span.second == *pos; return ok; }
// arbitrary symbols in the place of the labels and words
static void rename(TreeFragment& f, unsigned n, T& t) { TreeFragmentProduction& p = f.nodes[n]; if (!t.sym) t.sym = vs_int("label", 1, ALL_MASK); p.lhs = t.sym; if (n + 1 == f.nodes.size()) f.root = p.lhs;
  for (unsigned i = 0; i < t.c.size(); ++i) if (t.c[i].kind == 0) rename(f, p.rhs[i] & ALL_MASK, t.c[i]); else { t.c[i].sym = vs_int("word", 1, ALL_MASK); p.rhs[i] = t.c[i].sym | (t.c[i].kind == 2 ? FRONTIER_BIT : 0); } }
static void same(const std::vector<unsigned>& g, const std::vector<unsigned>& w, const char* what) { vs_assert(g.size() == w.size(), what); for (unsigned i = 0; i < g.size() && i < w.size(); ++i) vs_assert(g[i] == w[i], what); }
static void walks(const TreeFragment& f, const T& t) {
  std::vector<unsigned> w, g; df(t, w); for (TreeFragment::iterator i = f.begin(); i != f.end(); ++i) { g.push_back(*i); if (g.size() > w.size()) break; } same(g, w, "depth-first order");
  w.clear(); g.clear(); bf(t, w); for (BreadthFirstIterator i = f.bfs_begin(); i != f.bfs_end(); ++i) { g.push_back(*i); if (g.size() > w.size()) break; } same(g, w, "breadth-first order");
  std::vector<int> ts = f.Terminals(); std::vector<unsigned> wt; w.clear(); df(t, w); for (unsigned i = 0; i < w.size(); ++i) if (IsTerminal(w[i])) wt.push_back(w[i]); same(std::vector<unsigned>(ts.begin(), ts.end()), wt, "the words of a tree in order");
}
extern "C" void vs_harness() {
  const bool sites = vs_choice("sites", 2); budget = NB; T tt; if (NB) tt = node(0, sites); else { const char* q = kF[vs_choice("tree", 5)]; tt = fixed(q, sites ? 3 : 1); vs_reach("larger"); } const T t = tt; const int bl = sites ? vs_choice("blanks", 3) : 0; const std::string s = print(t, bl); int cutat = 0;
  alignas(16) static char buf[sizeof(TreeFragment)]; memset(buf, 0xAA, sizeof buf); // storage that held something else
  TreeFragment& f = *new (buf) TreeFragment(s, sites);
  int pos = 0;
  vs_assert(f.nodes.size() == (unsigned)count(t, 0), "a tree has a production for every bracket");
  vs_assert(match(f, f.nodes.size() - 1, t, &pos, !sites), "a tree reads as written, with the spans of its nodes");
  vs_assert((f.root & ALL_MASK) == (unsigned)t.id(), "the root is the outermost label");
  vs_assert(f.terminals == count(t, 1), "a tree counts its words"); vs_assert(f.frontier_sites == count(t, 2), "a tree counts its open sites");
  walks(f, t);
  { std::ostringstream o; o << f; vs_assert(o.str() == print(t, 0), "a tree prints as it was written"); }
  // leaving out a subtree: the rest follows
  { int ord = 0; std::vector<unsigned> got; const int cut = cutat = count(t, 0) > 1 ? vs_choice("cut", std::min(3, count(t, 0) - 1)) : 0; T c = t; int k = 0; bool did = false;
    for (TreeFragment::iterator i = f.begin(); !i.at_end(); ++i) { if (IsRHS(*i) && !IsLHS(*i)) { if (ord++ == cut) { TreeFragment::iterator sub = f.begin(i.child_node()); std::vector<unsigned> q; for (; sub != f.end(); ++sub) q.push_back(*sub); i.truncate(); did = true; got.push_back(*i); for (unsigned z = 0; z < q.size(); ++z) k += 1; continue; } } got.push_back(*i); if (got.size() > 60) break; }
    if (did) { std::vector<unsigned> all; df(t, all); int n = 0; std::vector<unsigned> want; for (unsigned z = 0; z < all.size(); ++z) { if ((all[z] & RHS_BIT) && n++ == cut) { want.push_back((all[z] & ALL_MASK) | FRONTIER_BIT); z += k; continue; } want.push_back(all[z]); } vs_assert(got == want, "a truncated subtree is an open site and the walk goes on behind it"); vs_reach("cut"); } }
  { int ord = 0; std::vector<unsigned> got, want; const int cut = count(t, 0) < 2 ? -1 : NB ? cutat : vs_choice("cut", std::min(5, count(t, 0) - 1)); std::vector<const T*> q(1, &t); int k = 0; // the same breadth first
    for (BreadthFirstIterator i = f.bfs_begin(); i != f.bfs_end(); ++i) { if (IsRHS(*i) && ord++ == cut) i.truncate(); got.push_back(*i); if (got.size() > 60) break; }
    for (unsigned h = 0; h < q.size(); ++h) { const T& u = *q[h]; want.push_back(u.id() | LHS_BIT); for (unsigned i = 0; i < u.c.size(); ++i) { const unsigned x = u.c[i].id(); if (u.c[i].kind == 1) want.push_back(x); else if (u.c[i].kind == 2) want.push_back(x | FRONTIER_BIT); else if (k++ == cut) want.push_back(x | FRONTIER_BIT); else { want.push_back(x | RHS_BIT); q.push_back(&u.c[i]); } } }
    vs_assert(got == want, "a subtree left out of a breadth-first walk is an open site and the walk goes on"); vs_reach("cut across"); }
  if (sites && count(t, 2)) { // as an annotation of a rule
    std::string r = "[X] |||", e; const int n = count(t, 2); for (int i = 0; i < n; ++i) { r += " [NP," + std::to_string(i + 1) + "]"; e += " [" + std::to_string(i + 1) + "]"; }
    TRule q; q.ReadFromString(r + " |||" + e + " ||| F1=1 ||| 0-0 ||| " + s); vs_reach("annotated"); }
  if (!cutat && !bl) { TreeFragment y(f); T ty = t; rename(y, y.nodes.size() - 1, ty); walks(y, ty); vs_reach("any symbols"); }
  f.~TreeFragment();
}
