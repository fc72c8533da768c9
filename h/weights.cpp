// Weight files, weight strings and corpus files.
#include "vsym.h"
#include <cmath>
#include <cstring>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "memfile.h"
#include "weights.h"
#include "corpus_tools.h"
#include "fdict.h"
#include "tdict.h"
#include "verbose.h"
using namespace std;
static const double VALS[] = {0, 1, -1, 0.1, -1.0/3, 1e-300, 1.7976931348623157e308, 4.9e-324, 123456789.123456789, -2.5e-7};
extern "C" void vs_setup() { SetSilent(true); FD::Convert("Glue"); FD::Convert("A_b:1"); FD::Convert("X"); }
static void file() {
  vector<double> w(4); for (int i = 1; i < 4; ++i) w[i] = VALS[vs_choice("v", i == 1 ? 10 : 3)];
  const bool hide = vs_choice("hide", 2), dense = vs_choice("short", 2); if (!dense) {} else w.resize(3);
  MemFile f; string extra("made by a test"); Weights::WriteToFile(f.name, w, hide, vs_choice("extra", 2) ? &extra : NULL);
  vector<double> r; vector<string> names; Weights::InitFromFile(f.name, &r, &names);
  size_t listed = 0; for (int i = 1; i < 4; ++i) { const double x = i < (int)w.size() ? w[i] : 0; vs_assert((i < (int)r.size() ? r[i] : 0) == x, "every weight reads back exactly"); if (!hide || x != 0) { ++listed; bool found = false; for (size_t k = 0; k < names.size(); ++k) found |= names[k] == FD::Convert(i); vs_assert(found, "every listed feature is named"); } }
  vs_assert(names.size() == listed, "hidden features are exactly those with weight zero");
  SparseVector<double> sv; sv.set_value(9, 1); Weights::InitSparseVector(w, &sv); size_t nz = 0; for (size_t i = 1; i < w.size(); ++i) { nz += w[i] != 0; vs_assert(sv.value(i) == w[i], "the sparse form has the same weights"); } vs_assert(sv.size() == nz, "the sparse form stores only the non-zero weights");
  vs_reach("file");
}
static void text() { // layouts a reader must accept
  static const char* sep[] = {" ", "=", "\t", "   "}; static const char* pre[] = {"", "# comment X 9\n", "\n"}; static const char* num[] = {"1", "-0.5", "2e3", ".25"}; static const double val[] = {1, -0.5, 2e3, .25};
  const int n = 1 + vs_choice("n", 2); string t; double want[2]; for (int k = 0; k < n; ++k) { const int v = vs_choice("num", 4); want[k] = val[v]; t += pre[vs_choice("pre", 3)]; t += k ? "X" : "A_b:1"; t += sep[vs_choice("sep", 4)]; t += num[v]; if (k + 1 < n || vs_choice("eol", 2)) t += "\n"; }
  
  MemFile f(t); vector<double> r(3, 7.0); Weights::InitFromFile(f.name, &r);
  vs_assert(r.size() > 2 && r[2] == want[0] && r[1] == 7.0, "the first weight is read and others are left alone"); if (n == 2) vs_assert(r.size() > 3 && r[3] == want[1], "the second weight is read");
  vs_reach("text");
}
static void str() {
  vector<double> w(4); for (int i = 1; i < 4; ++i) w[i] = VALS[vs_choice("v", i == 1 ? 10 : 3)]; const bool hide = vs_choice("hide", 2); if (hide && !w[1] && !w[2] && !w[3]) vs_stop();
  string s = Weights::GetString(w, hide); vector<double> r(4, 0.0); if (!hide) r[2] = 5; Weights::UpdateFromString(s, r); for (int i = 1; i < 4; ++i) vs_assert(r[i] == w[i], "a weight string reads back exactly"); vs_reach("str");
}
static void corpus() {
  const int n = 1 + vs_choice("lines", 4), size = 1 + vs_choice("size", 3); string t; vector<vector<string> > S(n), T(n); static const char* wd[] = {"a", "b", "c"};
  for (int i = 0; i < n; ++i) { const int a = vs_choice("ls", 2), b = vs_choice("lt", 2); for (int k = 0; k < 1 + a; ++k) { S[i].push_back(wd[(i + k) % 3]); t += S[i].back() + " "; } t += "|||"; for (int k = 0; k < b; ++k) { T[i].push_back(wd[(i + 2 * k + 1) % 3]); t += " " + T[i].back(); } t += "\n"; }
  MemFile f(t); vector<int> seen(n, 0);
  for (int rank = 0; rank < size; ++rank) { vector<vector<WordID> > src(1), trg; set<WordID> sv, tv; CorpusTools::ReadFromFile(f.name, &src, &sv, &trg, &tv, rank, size);
    vs_assert(src.size() == trg.size(), "source and target lines correspond"); size_t k = 0;
    for (int i = rank; i < n; i += size, ++k) { ++seen[i]; vs_assert(k < src.size(), "a shard has its lines"); vs_assert(src[k].size() == S[i].size() && trg[k].size() == T[i].size(), "a line keeps its length"); for (size_t j = 0; j < S[i].size(); ++j) vs_assert(TD::Convert(src[k][j]) == S[i][j], "source words are read in order"); for (size_t j = 0; j < T[i].size(); ++j) vs_assert(TD::Convert(trg[k][j]) == T[i][j], "target words are read in order"); }
    vs_assert(k == src.size(), "a shard has no other lines");
    set<WordID> a, b; for (int i = 0; i < n; ++i) { for (size_t j = 0; j < S[i].size(); ++j) a.insert(TD::Convert(S[i][j])); for (size_t j = 0; j < T[i].size(); ++j) b.insert(TD::Convert(T[i][j])); } vs_assert(sv == a && tv == b, "the vocabularies cover the whole corpus on every shard"); }
  for (int i = 0; i < n; ++i) vs_assert(seen[i] == 1, "every line belongs to one shard"); vs_reach("corpus");
  vector<WordID> s, g; CorpusTools::ReadLine("a b ||| c", &s, &g); vs_assert(s.size() == 2 && g.size() == 1, "a line divides at the separator");
}
extern "C" void vs_harness() { switch (vs_choice("part", 4)) { case 0: file(); break; case 1: text(); break; case 2: str(); break; default: corpus(); } }
