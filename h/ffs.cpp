// Feature functions of the decoder that need no model: what each fires on a rule, and what n-gram detection adds up to over derivations.
#include "vsym.h"
#include "hg.h"
#include "trule.h"
#include "ff_basic.h"
#include "ff_rules.h"
#include "ff_wordset.h"
#include "ff_charset.h"
#include "ff_spans.h"
#include "ff_ruleshape.h"
#include "ff_source_path.h"
#include "ff_ngrams.h"
#include "sentence_metadata.h"
#include "lattice.h"
#include "verbose.h"
#include "memfile.h"
#include <map>
#include <cmath>
#include <cstring>
typedef std::map<std::string, double> Feats;
static const char* kW[] = {"a", "b;=", "\xC3\xA9x"}; static const char* kEsc[] = {"a", "b__", "\xC3\xA9x"}; static const char* kC[] = {"X", "Y=", "S"}; static const char* kCE[] = {"X", "Y_", "S"};
static RuleShapeFeatures* shape;
extern "C" void vs_setup() { std::cerr.setstate(std::ios::failbit); SetSilent(true); for (int i = 0; i < 3; ++i) { TD::Convert(kW[i]); TD::Convert(kC[i]); } TD::Convert("<s>"); TD::Convert("</s>"); for (int i = 0; i < 40; ++i) TD::Convert("filler" + std::to_string(i)); TD::Convert("w0"); TD::Convert("w1"); TD::Convert("w2"); shape = new RuleShapeFeatures(""); }
static void expect(const SparseVector<double>& f, const Feats& w, const char* what) { bool ok = true; SparseVector<double> r; for (auto& x : w) r.set_value(FD::Convert(x.first), x.second); for (auto i = f.begin(); i != f.end(); ++i) ok &= fabs(i->second - r.value(i->first)) < 1e-12; for (auto i = r.begin(); i != r.end(); ++i) ok &= fabs(i->second - f.value(i->first)) < 1e-12; vs_assert(ok, what); }
struct Rule { TRulePtr r; std::vector<int> f, e; int lhs, ar, i, j; }; // f: word 0..2, or -1 - category; e: word, or -1 - variable
static std::string cat(const std::string& a, const char* sep, const std::string& b) { return a.empty() ? b : a + sep + b; }
static SparseVector<double> fire(FeatureFunction& ff, const Rule& r, const SentenceMetadata& m, std::vector<std::vector<char> >* ants = 0, std::vector<char>* out = 0) {
  HG::Edge e; e.rule_ = r.r; e.i_ = r.i; e.j_ = r.j; for (int k = 0; k < r.ar; ++k) e.tail_nodes_.push_back(k); std::vector<const void*> a; std::vector<char> none(64), st(64); for (int k = 0; k < r.ar; ++k) a.push_back(ants ? &(*ants)[k][0] : &none[0]);
  SparseVector<double> f, est; ff.PrepareForInput(m); ff.TraversalFeatures(m, e, a, &f, &est, &st[0]); if (out) *out = st; SparseVector<double> g; ff.TraversalFeatures(m, e, a, &g, &est, &st[0]); bool same = true; for (auto i = f.begin(); i != f.end(); ++i) same &= g.value(i->first) == i->second; vs_assert(same && f.size() == g.size(), "a feature fires the same on the same rule again"); return f; }
static int bin(int n) { return n ? int(log(n + 1.0) / log(1.39)) - 1 : 0; }
static void rules() {
  Rule r; r.r.reset(new TRule); r.ar = 0; const int config = vs_choice("config", 3);
  const int fl = 1 + vs_choice("source", FLEN); for (int i = 0; i < fl; ++i) { const int s = vs_choice("symbol", r.ar < 2 ? 5 : 3); if (s < 3) { r.f.push_back(s); r.r->f_.push_back(TD::Convert(kW[s])); } else { ++r.ar; r.f.push_back(2 - s); r.r->f_.push_back(-TD::Convert(kC[s - 3])); } }
  r.lhs = fl == 1 || r.ar == 2 ? vs_choice("lhs", 3) : fl % 3; r.r->lhs_ = -TD::Convert(kC[r.lhs]);
  r.r->arity_ = r.ar; const int words = vs_choice("words", ELEN + 1); std::vector<int> vars; for (int i = 0; i < r.ar; ++i) vars.push_back(i); if (r.ar == 2 && vs_choice("swap", 2)) std::swap(vars[0], vars[1]); unsigned v = 0; int w = 0; if (!words && !r.ar) return;
  while (w < words || v < vars.size()) { const bool word = w < words && (v == vars.size() || vs_choice("word", 2)); if (word) { const int x = vs_choice("target", w ? 2 : 3); r.e.push_back(x); r.r->e_.push_back(TD::Convert(kW[x])); ++w; } else { r.e.push_back(-1 - vars[v]); r.r->e_.push_back(-vars[v]); ++v; } }
  const int N = 22; Lattice lat; lat.resize(N); for (int i = 0; i < N; ++i) lat[i].push_back(LatticeArc(TD::Convert(kW[i % 3]), SparseVector<double>(), 1)); SentenceMetadata m(0, lat); m.SetSourceLength(N); const_cast<Lattice&>(m.GetSourceLattice()) = lat;
  const int spans[][2] = {{0, 1}, {3, 22}, {0, 22}, {2, 17}, {5, 7}, {1, 17}}; const int* sp = spans[vs_choice("span", r.ar == 2 && fl == 2 ? 6 : 2)]; r.i = sp[0]; r.j = sp[1];
  int ew = 0, fw = 0; for (int x : r.e) ew += x >= 0; for (int x : r.f) fw += x >= 0; Feats w0;
  { WordPenalty p(""); w0.clear(); w0["WordPenalty"] = -ew / log(10); expect(fire(p, r, m), w0, "the word penalty counts target words"); }
  { SourceWordPenalty p(""); w0.clear(); w0["SourceWordPenalty"] = -fw / log(10); expect(fire(p, r, m), w0, "the source word penalty counts source words"); }
  { ArityPenalty p("1"); w0.clear(); if (r.ar < 2) w0["Arity_" + std::to_string(r.ar)] = 1; expect(fire(p, r, m), w0, "the arity penalty marks the number of variables"); }
  { RuleIdentityFeatures p(""); w0.clear(); std::string s = std::string("R:") + kCE[r.lhs] + ":", f, e; for (int x : r.f) f = cat(f, "_", x >= 0 ? kEsc[x] : std::string("N") + kCE[-1 - x]); for (int x : r.e) e = cat(e, "_", x >= 0 ? kEsc[x] : "N" + std::to_string(-x)); w0[s + f + ":" + e] = 1; expect(fire(p, r, m), w0, "the rule identity names the rule"); }
  { RuleSourceBigramFeatures p(""); w0.clear(); std::string q = "<r>"; for (int x : r.f) { const std::string c = x >= 0 ? kEsc[x] : kCE[-1 - x]; w0["RBS:" + q + "_" + c] += 1; q = c; } w0["RBS:" + q + "_</r>"] += 1; expect(fire(p, r, m), w0, "source bigrams of the rule are counted"); }
  { RuleTargetBigramFeatures p(""); w0.clear(); std::string q = "<r>"; std::vector<int> ty; for (int x : r.f) if (x < 0) ty.push_back(-1 - x); for (int x : r.e) { const std::string c = x >= 0 ? kEsc[x] : kCE[ty[-1 - x]] + std::to_string(-x); w0["RBT:" + q + "_" + c] += 1; q = c; } w0["RBT:" + q + "_</r>"] += 1; expect(fire(p, r, m), w0, "target bigrams of the rule are counted"); }
  { const bool oov = config != 1; MemFile f(" b;= \n\n\xC3\xA9x\n"); WordSet p(std::string("-v ") + f.name + " -N Set" + (oov ? " --oov" : "")); w0.clear(); int n = 0; for (int x : r.e) n += x >= 0 && (x > 0) != oov; w0["Set"] = n; expect(fire(p, r, m), w0, "the word set counts the target words inside or outside it"); }
  { NonLatinCount p(""); w0.clear(); int n = 0; for (int x : r.e) n += x == 2; if (n) w0["NonLatinCount"] = n; expect(fire(p, r, m), w0, "words outside ASCII are counted"); }
  { RuleShapeFeatures& p = *shape; w0.clear(); std::string s = "Shape_S"; for (int side = 0; side < 2; ++side) { const std::vector<int>& x = side ? r.e : r.f; unsigned k = 0; for (int pos = 0; pos < 5; ++pos) { bool b = false; if (pos % 2) { if (k < x.size() && x[k] < 0) { b = true; ++k; } } else while (k < x.size() && x[k] >= 0) { b = true; ++k; } s += b ? "1" : "0"; } if (!side) s += "_T"; } w0[s] = 1; expect(fire(p, r, m), w0, "the shape marks words and variables in their order"); }
  { const int how = config; MemFile fe("C1 a\nClass2 b;= 7\n"), ff("F1 b;=\nF2 \xC3\xA9x\n"); RuleShapeFeatures2 p((how != 1 ? std::string("-e ") + fe.name + " " : "") + (how != 0 ? std::string("-f ") + ff.name : "") + (how == 2 ? " -p 2" : "")); w0.clear(); const char* ce[] = {"C1", how == 2 ? "Cl" : "Class2", "<unk>"}; const char* cf[] = {"<unk>", "F1", "F2"}; std::string a, b; for (int x : r.f) a = cat(a, "_", x >= 0 ? cf[x] : "NT"); for (int x : r.e) b = cat(b, "_", x >= 0 ? ce[x] : "NT"); w0["RS:" + (how == 0 ? b : how == 1 ? a : a + "__" + b)] = 1; expect(fire(p, r, m), w0, "the class shape lists classes and variables"); }
  { CMR2008ReorderingFeatures p(""); w0.clear(); if (r.ar == 2 && r.lhs != 2) { bool re = false; for (int x : r.e) if (x < 0) { re = x != -1; break; } const std::string s = re ? "CMRReorder" : "CMRMono"; w0[s] = 1; w0[s + "_" + std::to_string(bin(std::min(15, r.j - r.i)))] = 1; vs_reach("reordering"); } expect(fire(p, r, m), w0, "reordering is marked by the size of the span"); }
  { const int how = config; MemFile cf("a K\nb;= L=\n"), vf("# values\nBS:BOS 0.5\nBBI:L__OOV 2\nES:EOS -1\nEBI:OOV_K 0.25\nS:BOS_EOS 4\nS_LS:8_BOS_EOS 8\nLS:8_BOS_EOS 16\nS_S:BOS_EOS 32\n"); std::string arg = how ? cf.name : ""; if (how == 2) arg += std::string(" ") + vf.name; SpanFeatures p(arg); w0.clear();
    auto word = [&](int k) { return k < 0 ? std::string("BOS") : k >= N ? std::string("EOS") : how ? std::string(k % 3 == 0 ? "K" : k % 3 == 1 ? "L_" : "OOV") : std::string(kEsc[k % 3]); };
    const std::string es = "ES:" + word(r.j), bs = "BS:" + word(r.i - 1), eb = "EBI:" + word(r.j - 1) + "_" + word(r.j), bb = "BBI:" + word(r.i - 1) + "_" + word(r.i), pre = r.lhs == 2 ? "S_" : "", s = pre + "S:" + word(r.i - 1) + "_" + word(r.j), ls = pre + "LS:" + std::to_string(bin(r.j - r.i)) + "_" + word(r.i - 1) + "_" + word(r.j);
    if (how < 2) { w0[es] = w0[bs] = w0[eb] = w0[bb] = w0[s] = w0[ls] = 1; } else { Feats t; t["BS:BOS"] = 0.5; t["BBI:L__OOV"] = 2; t["ES:EOS"] = -1; t["EBI:OOV_K"] = 0.25; t["S:BOS_EOS"] = 4; t["S_LS:8_BOS_EOS"] = 8; t["LS:8_BOS_EOS"] = 16; t["S_S:BOS_EOS"] = 32; w0["SpanBegin"] = t[bs] + t[bb]; w0["SpanEnd"] = t[es] + t[eb]; w0[r.lhs == 2 ? "SSpanContext" : "XSpanContext"] = t[s] + t[ls]; vs_reach("collapsed"); }
    expect(fire(p, r, m), w0, "span features name the words at both ends of the span"); }
  vs_reach("rules"); }
static void path() { // a rule that continues the path of its variable, or starts one
  const int n = 1 + vs_choice("words", 4), cut = vs_choice("cut", n), cut2 = vs_choice("cut", n); Lattice lat; const SentenceMetadata m(0, lat); SourcePathFeatures ff(""); std::vector<int> w; for (int i = 0; i < n; ++i) w.push_back(vs_choice("word", 3)); SparseVector<double> tot; std::vector<std::vector<char> > st; int from = 0;
  for (int part = 0; part < 3; ++part) { const int to = part == 2 ? n : part ? std::max(cut, cut2) : std::min(cut, cut2); if (to <= from && !(part == 2)) continue; Rule r; r.r.reset(new TRule); r.ar = st.size(); r.i = r.j = r.lhs = 0; r.r->lhs_ = -TD::Convert("X"); r.r->arity_ = r.ar; if (r.ar) r.r->f_.push_back(-TD::Convert("X")); for (int k = from; k < to; ++k) r.r->f_.push_back(TD::Convert(kW[w[k]])); std::vector<char> out; tot += fire(ff, r, m, &st, &out); st.assign(1, out); from = to; }
  Feats want; for (int i = 0; i < n; ++i) { want[std::string("SU:") + kW[w[i]]] += 1; if (i) want[std::string("SB:") + kW[w[i - 1]] + "_" + kW[w[i]]] += 1; } expect(tot, want, "the words and bigrams of a source path are counted"); vs_reach("path"); }
struct Item { std::vector<char> st; SparseVector<double> f; };
static const FeatureFunction* ff; static const SentenceMetadata* sm; static std::vector<WordID> sent;
static Item apply(const std::vector<WordID>& e, const std::vector<Item>& ants) { HG::Edge edge; TRulePtr r(new TRule); r->lhs_ = -TD::Convert("X"); r->e_ = e; r->f_ = e; r->arity_ = ants.size(); edge.rule_ = r; std::vector<const void*> as; Item o; for (unsigned i = 0; i < ants.size(); ++i) { as.push_back(&ants[i].st[0]); o.f += ants[i].f; } o.st.assign(ff->StateSize(), 0); SparseVector<double> f, est; ff->TraversalFeatures(*sm, edge, as, &f, &est, &o.st[0]); o.f += f; return o; }
static Item derive(int lo, int hi, unsigned code) { std::vector<WordID> e; std::vector<Item> a; const int n = hi - lo; if (n == 1) { e.push_back(sent[lo]); Item o = apply(e, a); if (code % 2) { e.assign(1, 0); a.push_back(o); o = apply(e, a); } return o; }
  const int cut = lo + 1 + code % (n - 1); code /= n - 1; const int how = code % 6; code /= 6;
  if (how == 0) { for (int i = lo; i < hi; ++i) e.push_back(sent[i]); }
  else if (how == 1) { e.push_back(0); e.push_back(-1); a.push_back(derive(lo, cut, code / 2)); a.push_back(derive(cut, hi, code / 3)); }
  else if (how == 2) { e.push_back(-1); e.push_back(0); a.push_back(derive(cut, hi, code / 2)); a.push_back(derive(lo, cut, code / 3)); }
  else if (how == 3) { for (int i = lo; i < cut; ++i) e.push_back(sent[i]); e.push_back(0); a.push_back(derive(cut, hi, code)); }
  else if (how == 4) { e.push_back(0); for (int i = cut; i < hi; ++i) e.push_back(sent[i]); a.push_back(derive(lo, cut, code)); }
  else { if (n == 2) { e.push_back(0); a.push_back(derive(lo, hi, code * 6)); } else { const int c2 = std::min(cut, hi - 2); e.push_back(0); e.push_back(sent[c2]); e.push_back(-1); a.push_back(derive(lo, c2, code / 2)); a.push_back(derive(c2 + 1, hi, code / 3)); } }
  return apply(e, a); }
static void ngrams() {
  const int order = 1 + vs_choice("order", 4), mode = vs_choice("mode", 4); // 0 plain, 1 boundary words in the rules, 2 clusters, 3 other names
  MemFile cl("# clusters\nK w0\n\nL\tw1 12\n"); std::string arg = "-o " + std::to_string(order); if (mode == 1) arg += " -x"; if (mode == 2) arg += std::string(" -c ") + cl.name; if (mode == 3) arg += " -n my -U one: -B two: -T three: -4 four: -S |"; NgramDetector d(arg); ff = &d; Lattice lat; const SentenceMetadata m(0, lat); sm = &m;
  const char* px[] = {"", "U:", "B:", "T:", "4:"}; const char* py[] = {"", "one:", "two:", "three:", "four:"}; const char* kM[] = {"K", "L", "<unk>"};
  const int n = 1 + vs_choice("words", NLEN); std::vector<std::string> tok(1, "<s>"); sent.clear(); if (mode == 1) sent.push_back(TD::Convert("<s>")); for (int i = 0; i < n; ++i) { const int w = vs_choice("word", 3); sent.push_back(TD::Convert("w" + std::to_string(w))); tok.push_back(mode == 2 ? kM[w] : "w" + std::to_string(w)); } if (mode == 1) sent.push_back(TD::Convert("</s>")); tok.push_back("</s>");
  Feats want; for (unsigned p = 1; p < tok.size(); ++p) for (int k = 1; k <= order && k <= (int)p + 1; ++k) { std::string s; for (unsigned q = p + 1 - k; q <= p; ++q) s = cat(s, mode == 3 ? "|" : "_", tok[q]); want[(mode == 3 ? std::string("my") + py[k] : px[k]) + s] += 1; }
  const int L = sent.size(); const unsigned total = L == 1 ? 2 : L == 2 ? 24 : L == 3 ? 288 : 5184; Item first;
  for (unsigned code = 0; code < total; code += L > 2 ? DSTEP : 1) { Item o = derive(0, L, code); SparseVector<double> fin; ff->FinalTraversalFeatures(&o.st[0], &fin); SparseVector<double> t = o.f; t += fin; expect(t, want, "the n-grams of a translation are counted over any derivation"); if (!code) first = o; else vs_assert(!memcmp(&o.st[0], &first.st[0], o.st.size()), "derivations of the same words have the same state"); }
  vs_reach("ngrams"); }
extern "C" void vs_harness() { if (PART == 0) rules(); else if (vs_choice("part", 2)) ngrams(); else path(); }
