// The decoder's language model feature: sums over any derivation against the model's definition.
#define DECODER
#define STEP 1
#include "klm.cpp"
#include <string.h>
#include "hg.h"
#include "trule.h"
#include "tdict.h"
#include "fdict.h"
#include "ff_klm.h"
#include "sentence_metadata.h"
#include "lattice.h"
#include "verbose.h"
extern "C" void vs_setup() { std::cerr.setstate(std::ios::failbit); SetSilent(true); TD::Convert("zzz"); for (int i = 0; i < 6; ++i) TD::Convert(names[i]); FD::Convert("LM"); FD::Convert("LM_OOV"); FD::Convert("LM_Emit"); }
struct Item { std::vector<char> st; double lm, oov, emit; };
static const FeatureFunction* ff; static const SentenceMetadata* sm; static int fL, fO, fE, SZ;
static std::vector<WordID> sent; // with its boundary words when the rules carry them
static Item apply(const std::vector<WordID>& e, const std::vector<Item>& ants) {
  Hypergraph::Edge edge; TRulePtr r(new TRule); r->lhs_ = -TD::Convert("X"); r->e_ = e; r->f_ = e; r->arity_ = ants.size(); edge.rule_ = r; std::vector<const void*> as; Item o; o.lm = o.oov = o.emit = 0; for (unsigned i = 0; i < ants.size(); ++i) { as.push_back(&ants[i].st[0]); o.lm += ants[i].lm; o.oov += ants[i].oov; o.emit += ants[i].emit; }
  o.st.assign(SZ, 0); SparseVector<double> f, est; ff->TraversalFeatures(*sm, edge, as, &f, &est, &o.st[0]); o.lm += f.value(fL); o.oov += f.value(fO); o.emit += f.value(fE); return o; }
// words lo..hi as one item, in one of many ways
static Item derive(int lo, int hi, unsigned code) {
  std::vector<WordID> e; std::vector<Item> a; const int n = hi - lo; if (n == 1) { e.push_back(sent[lo]); Item o = apply(e, a); if (code % 2) { e.assign(1, 0); a.push_back(o); o = apply(e, a); } return o; }
  const int cut = lo + 1 + code % (n - 1); code /= n - 1; const int how = code % 6; code /= 6;
  if (how == 0) { for (int i = lo; i < hi; ++i) e.push_back(sent[i]); }
  else if (how == 1) { e.push_back(0); e.push_back(-1); a.push_back(derive(lo, cut, code / 2)); a.push_back(derive(cut, hi, code / 3)); }
  else if (how == 2) { e.push_back(-1); e.push_back(0); a.push_back(derive(cut, hi, code / 2)); a.push_back(derive(lo, cut, code / 3)); }
  else if (how == 3) { for (int i = lo; i < cut; ++i) e.push_back(sent[i]); e.push_back(0); a.push_back(derive(cut, hi, code)); }
  else if (how == 4) { e.push_back(0); for (int i = cut; i < hi; ++i) e.push_back(sent[i]); a.push_back(derive(lo, cut, code)); }
  else { if (n == 2) { e.push_back(0); a.push_back(derive(lo, hi, code * 6)); } else { const int c2 = std::min(cut, hi - 2); e.push_back(0); e.push_back(sent[c2]); e.push_back(-1); a.push_back(derive(lo, c2, code / 2)); a.push_back(derive(c2 + 1, hi, code / 3)); } }
  return apply(e, a); }
extern "C" void vs_harness() {
  Arpa a; a.order = ORDER; num.assign(1, 0); serial = 0; std::map<W, int> style; std::vector<W> all; const int zs = vs_choice("backoffs", 2);
  for (int w = 0; w < NW; ++w) all.push_back(W(1, w));
  const W bi[] = {w2(3, 4), w2(4, 3), w2(1, 3), w2(4, 2), w2(3, 3), w2(1, 4)}; for (int k = 0; k < NBI; ++k) if (vs_choice("bigram", 2)) all.push_back(bi[k]);
  const W tri[] = {w3(3, 4, 3), w3(1, 3, 4), w3(4, 3, 3), w3(3, 4, 2)};
  if (ORDER > 2) for (int k = 0; k < NTRI; ++k) { const W& t = tri[k]; if (std::find(all.begin(), all.end(), W(t.begin(), t.end() - 1)) != all.end() && std::find(all.begin(), all.end(), W(t.begin() + 1, t.end())) != all.end() && vs_choice("longer", 2)) all.push_back(t); }
  for (unsigned i = 0; i < all.size(); ++i) { bool ctx = false; for (unsigned j = 0; j < all.size(); ++j) ctx |= all[j].size() == all[i].size() + 1 && W(all[j].begin(), all[j].end() - 1) == all[i];
    const int st = !ctx || zs == 1 ? 1 : 0; style[all[i]] = st; add(a, all[i], st); }
  a.by.resize(ORDER); for (int n = 1; n < ORDER + 1; ++n) if (a.by[n - 1].empty()) vs_stop();
  MemFile f(text(a, style)); const int mode = vs_choice("mode", 3); // 0 plain, 1 boundary words in the rules, 2 classes
  boost::shared_ptr<FeatureFunction> made; std::string arg = std::string(mode == 1 ? "-x " : "") + "-n LM " + f.name;
  static const double emit[] = {-0.5, -1.25, -2}; const char* surface[] = {"a", "b", "nowhere"}; int cls[] = {3, 4, 0}; // what the model sees
  if (mode == 2) { MemFile m("a x -0.5\nb y -1.25\na z -2\n"); cls[2] = 3; surface[0] = "x"; surface[1] = "y"; surface[2] = "z"; arg = std::string("-m ") + m.name + " -n LM " + f.name;
    made = KLanguageModelFactory().Create(arg); } else made = KLanguageModelFactory().Create(arg); ff = made.get();
  SZ = ff->StateSize(); fL = FD::Convert("LM"); fO = FD::Convert("LM_OOV"); fE = FD::Convert("LM_Emit"); Lattice lat; const SentenceMetadata meta(0, lat); sm = &meta;
  const int n = 1 + vs_choice("words", LEN); const unsigned total = n == 1 ? 2 : n == 2 ? 24 : n == 3 ? 12 * 24 : 18 * 12 * 24; const int miss = mode == 1 ? vs_choice("boundary", 4) : 0; // which boundary words are left out
  int sents = 1; for (int i = 0; i < n; ++i) sents *= 3;
  for (int x = 0; x < sents; x += n > 2 ? SSTEP : 1) { W ws; sent.clear(); int y = x, oov = 0; double em = 0;
    if (mode == 1 && !(miss & 1)) sent.push_back(TD::Convert("<s>"));
    for (int i = 0; i < n; ++i, y /= 3) { const int k = y % 3; sent.push_back(mode == 2 && k == 0 && i == 1 ? TD::Convert("unmapped") : TD::Convert(surface[k])); int c = cls[k]; if (mode == 2 && k == 0 && i == 1) c = 0; else if (mode == 2) em += emit[k]; if (!c) ++oov; ws.push_back(c); }
    if (mode == 1 && !(miss & 2)) sent.push_back(TD::Convert("</s>"));
    double want = 0; for (int i = 0; i <= n; ++i) if (i < n || !(miss & 2)) { W ctx; if (!(miss & 1)) ctx.push_back(1); ctx.insert(ctx.end(), ws.begin(), ws.begin() + i); want += a.p(ctx, i < n ? ws[i] : 2); }
    want -= 100 * ((miss & 1) + (miss >> 1)); Item first;
    for (unsigned code = 0; code < total; code += 1 + (n > 2 ? TSTEP : 0)) { const Item o = derive(0, sent.size(), code); SparseVector<double> fin; ff->FinalTraversalFeatures(&o.st[0], &fin);
      vs_assert(o.lm + fin.value(fL) == want, "the feature sums to the model's score of the translation over any derivation");
      vs_assert(o.oov + fin.value(fO) == oov, "unknown words are counted once each"); vs_assert(o.emit + fin.value(fE) == em, "emission scores are those of the words");
      if (!code) first = o; else vs_assert(!memcmp(&o.st[0], &first.st[0], SZ), "derivations of the same words have the same state"); }
    if (oov) vs_reach("oov"); }
  if (mode == 0) vs_reach("plain"); else if (mode == 1) { if (miss) vs_reach("missing"); else vs_reach("explicit"); } else vs_reach("classes");
}
