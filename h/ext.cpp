// Grammar extraction: suffix array, gapped lookups, rules licensed by the word alignment, counts, lexical tables, sampling.
#include <vector>
#include <string>
#include <map>
#include <set>
#include <iostream>
#include <sstream>
#include <memory>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>
#include <queue>
#include <cmath>
#include <chrono>
#include <boost/functional/hash.hpp>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/vector.hpp>
#define private public
#include "extractor/alignment.h"
#include "extractor/data_array.h"
#include "extractor/suffix_array.h"
#include "extractor/phrase.h"
#undef private
#include "extractor/matchings_finder.h"
#include "extractor/matchings_trie.h"
#include "extractor/phrase_location.h"
#include "extractor/phrase_builder.h"
#include "extractor/precomputation.h"
#include "extractor/fast_intersector.h"
#include "extractor/rule.h"
#include "extractor/rule_extractor.h"
#include "extractor/rule_extractor_helper.h"
#include "extractor/target_phrase_extractor.h"
#include "extractor/rule_factory.h"
#include "extractor/grammar.h"
#include "extractor/scorer.h"
#include "extractor/sampler.h"
#include "extractor/matchings_sampler.h"
#include "extractor/suffix_array_sampler.h"
#include "extractor/phrase_location_sampler.h"
#include "extractor/translation_table.h"
#include "extractor/vocabulary.h"
#include "extractor/features/feature.h"
#include "extractor/features/count_source_target.h"
#include "extractor/features/is_source_singleton.h"
#include "extractor/features/is_source_target_singleton.h"
#include "extractor/features/max_lex_source_given_target.h"
#include "extractor/features/max_lex_target_given_source.h"
#include "extractor/features/sample_source_count.h"
#include "extractor/features/target_given_source_coherent.h"
#include "vsym.h"
using namespace extractor;
typedef std::vector<int> I;
#ifdef PIVOT
extern "C" int rand() { return vs_choice("pivot", PIVOT); } // any pivot may be picked
#endif
extern "C" void vs_setup() { std::cerr.setstate(std::ios::failbit); }
static std::string wd(char c, int i) { return std::string(1, c) + char('a' + i); }
static std::shared_ptr<DataArray> corpus(const std::vector<I>& s, char c) { auto d = std::make_shared<DataArray>(); std::vector<std::string> l; for (auto& x : s) { std::string t; for (int w : x) t += (t.empty() ? "" : " ") + wd(c, w); l.push_back(t); } d->CreateDataArray(l); return d; }
static std::vector<I> text(const char* what, int n, int words) { std::vector<I> s(1); for (int i = 0; i < n; ++i) { const int w = vs_choice(what, words + 1); if (w == words) s.push_back(I()); else s.back().push_back(w); } return s; }
static std::vector<I> repeats(int len, int words) { std::vector<I> s(1); const int p = vs_choice("period", words); for (int k = 0; k < 3; ++k) { const int w = vs_choice("word", words + 2); if (w == words) s.push_back(I()); else if (w < words) s.back().push_back(w); if (k < 2) for (int i = 0; i < len; ++i) s.back().push_back(i % (p + 1)); } return s; } // a passage that comes twice
struct NoRules : public RuleExtractor { mutable std::vector<std::pair<I, std::vector<I> > > seen; std::shared_ptr<SuffixArray> sa; // keeps what it is asked to extract from
  std::vector<Rule> ExtractRules(const Phrase& p, const PhraseLocation& l) const { const int k = l.num_subpatterns; std::vector<I> v; for (size_t i = 0; i < l.matchings->size(); i += k) v.push_back(I(l.matchings->begin() + i, l.matchings->begin() + i + k)); std::sort(v.begin(), v.end()); seen.push_back(std::make_pair(p.Get(), v)); return std::vector<Rule>(); } };
struct NoScore : public Scorer { mutable std::map<std::pair<I, I>, std::vector<double> > seen; std::vector<double> Score(const features::FeatureContext& c) const { std::vector<double> v; v.push_back(c.source_phrase_count); v.push_back(c.pair_count); v.push_back(c.num_samples); seen[std::make_pair(c.source_phrase.Get(), c.target_phrase.Get())] = v; return v; } std::vector<std::string> GetFeatureNames() const { return std::vector<std::string>(3, "F"); } };

static void suffixes() {
#ifdef PASSAGE
  const std::vector<I> s = repeats(PASSAGE, WORDS);
#else
  const std::vector<I> s = text("word", LEN, WORDS);
#endif
  auto d = corpus(s, 'f'); SuffixArray sa(d); const I& t = d->data; const int n = t.size();
  vs_assert(sa.GetSize() == n + 1, "one suffix per position and the empty one"); if (sa.GetSize() != n + 1) return; std::vector<char> hit(n + 1); I r(n + 1);
  for (int i = 0; i <= n; ++i) { const int p = sa.GetSuffix(i); const bool in = p >= 0 && p <= n && !hit[p]; vs_assert(in, "every suffix appears once"); if (!in) return; hit[p] = 1; r[i] = p; }
  for (int i = 1; i <= n; ++i) { const I a(t.begin() + r[i - 1], t.end()), b(t.begin() + r[i], t.end()); vs_assert(a < b, "suffixes are in order"); }
  const I lcp = sa.BuildLCPArray(); vs_assert((int)lcp.size() == n + 1 && lcp[0] == -1, "one prefix length per suffix"); for (int i = 1; i <= n; ++i) { int k = 0; while (r[i] + k < n && r[i - 1] + k < n && t[r[i] + k] == t[r[i - 1] + k]) ++k; vs_assert(lcp[i] == k, "common prefixes of neighbours are right"); }
  auto sp = std::make_shared<SuffixArray>(sa); MatchingsFinder mf(sp); int m = 1; for (int k = 0; k < 3; ++k) m *= WORDS + 1;
  for (int q = 0; q < m; ++q) { PhraseLocation l; I ph; int x = q; for (int k = 0; k < 3; ++k, x /= WORDS + 1) { const int w = x % (WORDS + 1); l = mf.Find(l, wd('f', w), k); ph.push_back(d->GetWordId(wd('f', w))); std::set<int> want, got; for (int p = 0; p + (int)ph.size() <= n; ++p) if (std::equal(ph.begin(), ph.end(), t.begin() + p)) want.insert(p); for (int i = l.sa_low; i < l.sa_high; ++i) got.insert(r[i]); vs_assert(got == want && l.GetSize() == (int)want.size(), "a phrase is found exactly where it occurs"); if (want.size() > 1 && k == 2) vs_reach("trigram"); if (l.IsEmpty()) break; } }
  if (s.size() > 1) vs_reach("sentences"); }
static bool occurs(const std::vector<I>& chunks, const I& at, const I& t, int end) { for (size_t k = 0; k < chunks.size(); ++k) for (size_t i = 0; i < chunks[k].size(); ++i) if (at[k] + (int)i >= end || t[at[k] + i] != chunks[k][i]) return false; return true; }
static void places(const std::vector<I>& ch, size_t k, I at, const I& t, int b, int e, int gap, int span, std::vector<I>* out) { // all places of a pattern inside [b,e)
  if (k == ch.size()) { if (at.back() + (int)ch.back().size() - at[0] <= span) out->push_back(at); return; }
  for (int p = k ? at.back() + (int)ch[k - 1].size() + gap : b; p + (int)ch[k].size() <= e; ++p) { bool ok = true; for (size_t i = 0; i < ch[k].size() && ok; ++i) ok = t[p + i] == ch[k][i]; if (!ok) continue; at.push_back(p); places(ch, k + 1, at, t, b, e, gap, span, out); at.pop_back(); } }
static std::vector<I> split(const I& p) { std::vector<I> c(1); for (int x : p) if (x < 0) c.push_back(I()); else c.back().push_back(x); return c; }
static void lookups() {
  const std::vector<I> s = text("word", LEN, WORDS); auto d = corpus(s, 'f'); auto sa = std::make_shared<SuffixArray>(d); auto voc = std::make_shared<Vocabulary>(); static const int lim[][4] = {{1, 1, 2, 5}, {1, 0, 1, 3}, {2, 1, 2, 5}, {1, 1, 2, 4}}; const int li = vs_choice("limits", LIMS), gap = lim[li][0], span = SPAN + lim[li][1], nt = lim[li][2], sym = lim[li][3], pre = vs_choice("frequent", PRE);
  static const int fr[][4] = {{0, 0, 2, 1}, {9, 9, 2, 1}, {2, 1, 1, 1}, {9, 1, 2, 2}}; auto pc = std::make_shared<Precomputation>(voc, sa, fr[pre][0], fr[pre][1], span, sym, gap, fr[pre][2], fr[pre][3]);
  const int n = QLEN; I q, ids; const int unk = vs_choice("unknown", n + 1); for (int i = 0; i < n; ++i) { q.push_back(i == unk ? WORDS : vs_choice("query", WORDS)); ids.push_back(voc->GetTerminalIndex(wd('f', q[i]))); } if (unk < n) vs_reach("unknown");
  auto rx = std::make_shared<NoRules>(); auto sc = std::make_shared<NoScore>(); auto pb = std::make_shared<PhraseBuilder>(voc); auto sm = std::make_shared<PhraseLocationSampler>(sa, 1000);
  HieroCachingRuleFactory f(std::make_shared<MatchingsFinder>(sa), std::make_shared<FastIntersector>(sa, pc, voc, span, gap), pb, rx, voc, sm, sc, gap, span, nt, nt + 1, sym);
  f.GetGrammar(ids, std::unordered_set<int>()); std::set<I> must, may; // every pattern the query contains
  std::vector<std::pair<I, std::pair<int, int> > > st; for (int i = 0; i < n; ++i) st.push_back(std::make_pair(I(1, ids[i]), std::make_pair(i, i)));
  for (size_t k = 0; k < st.size(); ++k) { const I p = st[k].first; const int a = st[k].second.first, b = st[k].second.second; if (b - a + 1 <= span) must.insert(p); may.insert(p); int x = 0; for (int v : p) x += v < 0; if ((int)p.size() < sym && b + 1 < n) { I z = p; z.push_back(ids[b + 1]); st.push_back(std::make_pair(z, std::make_pair(a, b + 1))); } if (x < nt && (int)p.size() + 2 <= sym) for (int e = b + 1 + gap; e < n; ++e) { I z = p; z.push_back(-(x + 1)); z.push_back(ids[e]); st.push_back(std::make_pair(z, std::make_pair(a, e))); } }
  std::map<I, std::vector<I> > got; for (auto& x : rx->seen) { vs_assert(!got.count(x.first), "a pattern is looked up once"); got[x.first] = x.second; }
  I inv; for (int w = 0; w <= WORDS; ++w) inv.push_back(d->GetWordId(wd('f', w))); std::map<int, int> back; for (int w = 0; w <= WORDS; ++w) back[voc->GetTerminalIndex(wd('f', w))] = inv[w];
  for (const I& p : may) { I z; int gaps = 0; for (int x : p) { z.push_back(x < 0 ? x : back[x]); gaps += x < 0; } bool known = true; for (size_t i = 0; i < z.size(); ++i) if (p[i] >= 0 && z[i] < 0) known = false; std::vector<I> want; if (known) for (int k = 0; k < d->GetNumSentences(); ++k) places(split(z), 0, I(), d->data, d->GetSentenceStart(k), d->GetSentenceStart(k + 1) - 1, gap, gaps ? span : 1000, &want);
    std::sort(want.begin(), want.end()); if (want.empty()) vs_assert(!got.count(p) || got[p].empty(), "no rules from a pattern that never occurs"); else if (must.count(p)) vs_assert(got.count(p), "every pattern of the sentence that occurs in the corpus is found"); if (got.count(p)) vs_assert(got[p] == want, "a pattern is found exactly where it occurs"); if (gaps == 2 && want.size()) vs_reach("two gaps"); if (want.size() > 2 && gaps) vs_reach("often"); }
  for (auto& x : got) vs_assert(may.count(x.first), "only patterns of the sentence are looked up"); }

struct Span { int a, b, c, d; };
typedef std::vector<std::pair<int, int> > L;
static bool closed(const L& l, const Span& x) { bool any = false; for (auto& k : l) { const bool i = k.first >= x.a && k.first < x.b, j = k.second >= x.c && k.second < x.d; if (i != j) return false; any |= i; } return any; }
// does the aligned pair of sentences license this rule, with its terminals where `src` and `trg` say
struct Pair { I src, trg; L links; int span, gap; bool tight; };
static bool edge(const L& l, int i) { for (auto& k : l) if (k.first == i) return true; return false; }
static bool licensed(const Pair& P, const I& s, const I& t, const L& al) { // words of both sides are pairwise different
  const int n = P.src.size(), m = P.trg.size(); std::vector<int> sp, tp; // position of every terminal, -1 for a variable
  for (int x : s) { int p = -1; if (x >= 0) { for (int i = 0; i < n; ++i) if (P.src[i] == x) p = i; if (p < 0) return false; } sp.push_back(p); }
  for (int x : t) { int p = -1; if (x >= 0) { for (int i = 0; i < m; ++i) if (P.trg[i] == x) p = i; if (p < 0) return false; } tp.push_back(p); }
  int nv = 0; for (int x : s) nv += x < 0; int mv = 0; for (int x : t) mv += x < 0; if (nv != mv) return false;
  // spans of the variables: everything between their neighbours; at an end anything goes
  for (int a = 0; a < n; ++a) for (int b = a + 1; b <= n && b - a <= P.span; ++b) { std::vector<std::pair<int, int> > sv(nv + 1, std::make_pair(-1, -1)); bool ok = true; int at = a;
    for (size_t i = 0; i < s.size() && ok; ++i) { if (sp[i] >= 0) { ok = sp[i] == at; ++at; } else { int e = b; if (i + 1 < s.size()) { if (sp[i + 1] < 0) { ok = false; break; } e = sp[i + 1]; } if (e - at < P.gap) ok = false; else { sv[-s[i]] = std::make_pair(at, e); at = e; } } } if (!ok || at != b) continue;
    for (int c = 0; c < m; ++c) for (int d = c + 1; d <= m && d - c <= P.span; ++d) { const Span o = {a, b, c, d}; if (!closed(P.links, o)) continue; 
      // target: cut [c,d) so that the terminals sit where they must
      std::vector<std::pair<int, int> > tv(nv + 1); std::vector<std::pair<std::pair<int, int>, int> > dummy; struct R { const Pair& P; const I& t; const I& tp; const std::vector<std::pair<int, int> >& sv; int d; bool go(size_t i, int at) { if (i == t.size()) return at == d; if (tp[i] >= 0) return tp[i] == at && at < d && go(i + 1, at + 1); for (int e = at + 1; e <= d; ++e) { const Span v = {sv[-t[i]].first, sv[-t[i]].second, at, e}; if (closed(P.links, v) && go(i + 1, e)) return true; } return false; } } rec = {P, t, tp, sv, d};
      if (!rec.go(0, c)) continue;
      if (P.tight) { bool tt = edge(P.links, a) && edge(P.links, b - 1); for (int v = 1; v <= nv; ++v) tt = tt && edge(P.links, sv[v].first) && edge(P.links, sv[v].second - 1); bool ca = false, cb = false; for (auto& k : P.links) { ca |= k.second == c; cb |= k.second == d - 1; } if (!tt || !ca || !cb) continue; }
      std::set<std::pair<int, int> > want, got(al.begin(), al.end()); for (auto& k : P.links) for (size_t i = 0; i < s.size(); ++i) for (size_t j = 0; j < t.size(); ++j) if (sp[i] == k.first && tp[j] == k.second) want.insert(std::make_pair(i, j)); if (want == got && want.size()) return true; } }
  return false; }
static L links(int n, int m) { L l; 
#ifdef PERM
  const int k = n < m ? n : m; std::vector<char> used(k); for (int i = 0; i < k; ++i) { int j = PERM == 2 && i % 2 == 0 ? i : vs_choice("link", k); vs_assume(!used[j] && (PERM != 2 || i % 2 == j % 2)); used[j] = 1; l.push_back(std::make_pair(i, j)); }
#else
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) if (vs_choice("link", 2)) l.push_back(std::make_pair(i, j));
#endif
  return l; }
static void rules() {
  const int n = SL, m = TL; std::vector<I> s(1), t(1); for (int i = 0; i < n; ++i) s[0].push_back(i); for (int i = 0; i < m; ++i) t[0].push_back(i);
  auto d = corpus(s, 'f'), e = corpus(t, 'e'); auto sa = std::make_shared<SuffixArray>(d); auto al = std::make_shared<Alignment>(); const L l = links(n, m); al->alignments.push_back(l); auto voc = std::make_shared<Vocabulary>(); const bool tight = TIGHT == 2 ? vs_choice("tight", 2) : TIGHT;
  Pair P; P.links = l; P.span = SPAN + vs_choice("span", SPANS); P.gap = 1 + vs_choice("gap", GAPS); P.tight = tight; const int nt = NT, sym = SYM;
  auto pc = std::make_shared<Precomputation>(voc, sa, 0, 0, P.span, sym, P.gap, 2, 1); auto sc = std::make_shared<NoScore>();
  HieroCachingRuleFactory f(sa, e, al, voc, pc, sc, P.gap, P.span, nt, sym, 100, tight); I ids; for (int i = 0; i < n; ++i) ids.push_back(voc->GetTerminalIndex(wd('f', i))); P.src = ids; for (int i = 0; i < m; ++i) P.trg.push_back(voc->GetTerminalIndex(wd('e', i)));
  const std::vector<Rule> rs = f.GetGrammar(ids, std::unordered_set<int>()).GetRules(); std::set<std::pair<I, I> > seen;
  for (const Rule& r : rs) { const I a = r.source_phrase.Get(), b = r.target_phrase.Get(); int v = 0; for (int x : a) v += x < 0; vs_assert((int)a.size() <= sym && v <= nt, "rules keep to the limits on symbols"); vs_assert(seen.insert(std::make_pair(a, b)).second, "a rule is extracted once"); vs_assert(licensed(P, a, b, r.alignment), "every rule is licensed by the word alignment"); if (v == 2) vs_reach("two gaps"); }
  // phrases and rules whose variables are all inside: exactly those the alignment licenses
  if (tight) { struct G { const Pair& P; const std::set<std::pair<I, I> >& seen; int nt, sym, n, m; void go(I pat, I pos, int at, int v) { // pat: source symbols so far, pos: their source positions
      if (at > 0 && !pat.empty() && pat.back() >= 0) check(pat, pos); if ((int)pat.size() >= sym || at >= n) return;
      if (pat.empty()) { for (int a = 0; a < n; ++a) { I p(1, P.src[a]), q(1, a); go(p, q, a + 1, 0); } return; }
      { I p = pat, q = pos; p.push_back(P.src[at]); q.push_back(at); go(p, q, at + 1, v); }
      if (v < nt && (int)pat.size() + 2 <= sym) for (int e = at + P.gap; e < n; ++e) { I p = pat, q = pos; p.push_back(-(v + 1)); q.push_back(-1); p.push_back(P.src[e]); q.push_back(e); go(p, q, e + 1, v + 1); } }
    void check(const I& pat, const I& pos) { const int a = pos[0], b = pos.back() + 1; if (b - a > P.span) return; int c = m, d = 0; for (auto& k : P.links) if (k.first >= a && k.first < b) { c = std::min(c, k.second); d = std::max(d, k.second + 1); } const Span o = {a, b, c, d}; if (c >= d || d - c > P.span || !closed(P.links, o) || !edge(P.links, a) || !edge(P.links, b - 1)) return;
      I trg; for (int j = c; j < d; ++j) trg.push_back(P.trg[j]); std::vector<int> var(m, 0); int v = 0; bool word = false; 
      for (size_t i = 0; i < pat.size(); ++i) if (pat[i] < 0) { ++v; const int x = pos[i - 1] + 1, y = pos[i + 1]; if (!edge(P.links, x) || !edge(P.links, y - 1)) return; int p = m, q = 0; for (auto& k : P.links) if (k.first >= x && k.first < y) { p = std::min(p, k.second); q = std::max(q, k.second + 1); } const Span g = {x, y, p, q}; if (!closed(P.links, g)) return; for (int j = p; j < q; ++j) { if (var[j]) return; var[j] = v; } } else word |= edge(P.links, pos[i]);
      if (!word) return; I out; for (int j = c; j < d; ++j) if (!var[j]) out.push_back(P.trg[j]); else if (j == c || var[j - 1] != var[j]) out.push_back(-var[j]);
      vs_assert(seen.count(std::make_pair(pat, out)), "every rule the alignment licenses is extracted"); if (v) vs_reach("inner gap"); if (v > 2) vs_reach("three gaps"); } } g = {P, seen, nt, sym, n, m}; g.go(I(), I(), 0, 0); }
  if (rs.size() > 3) vs_reach("rules"); if (!tight) vs_reach("loose"); }
static void counts() { // two sentence pairs with repeated words
  std::vector<I> s(2), t(2); auto al = std::make_shared<Alignment>(); for (int k = 0; k < 2; ++k) { const int n = 1 + vs_choice("length", SL), more = k ? 0 : vs_choice("longer", n > 1 ? 3 : 2), m = more == 2 ? n - 1 : n + more; L l; const int sh = n > 1 ? vs_choice("shift", 2) : 0; for (int i = 0; i < n; ++i) { s[k].push_back(k ? i % WORDS : vs_choice("f", WORDS)); if (i < m) t[k].push_back(vs_choice("e", WORDS)); const int j = (i + sh) % n; if (j < m && vs_choice("linked", 2)) l.push_back(std::make_pair(i, j)); } if (m > n) t[k].push_back(0); al->alignments.push_back(l); if (m < n && l.empty()) vs_reach("longer"); }
  auto d = corpus(s, 'f'), e = corpus(t, 'e'); auto sa = std::make_shared<SuffixArray>(d); auto voc = std::make_shared<Vocabulary>(); auto pc = std::make_shared<Precomputation>(voc, sa, 0, 0, 9, 3, 1, 2, 1); auto tt = std::make_shared<TranslationTable>(d, e, al);
  // lexical table
  std::map<std::pair<int, int>, double> c; std::map<int, double> cf, ce; for (int k = 0; k < 2; ++k) { const L& l = al->alignments[k]; I fs(s[k].size()), es(t[k].size()); for (auto& x : l) { fs[x.first] = es[x.second] = 1; c[std::make_pair(s[k][x.first], t[k][x.second])]++; cf[s[k][x.first]]++; ce[t[k][x.second]]++; } for (size_t i = 0; i < fs.size(); ++i) if (!fs[i]) { c[std::make_pair(s[k][i], -1)]++; cf[s[k][i]]++; ce[-1]++; } for (size_t i = 0; i < es.size(); ++i) { if (!es[i]) { c[std::make_pair(-1, t[k][i])]++; cf[-1]++; ce[t[k][i]]++; } } }
  for (int a = -1; a < WORDS; ++a) for (int b = -1; b < WORDS; ++b) { const std::string fw = a < 0 ? DataArray::NULL_WORD_STR : wd('f', a), ew = b < 0 ? DataArray::NULL_WORD_STR : wd('e', b); const bool kf = a < 0 || cf.count(a), ke = b < 0 || ce.count(b); const double g = tt->GetTargetGivenSourceScore(fw, ew), h = tt->GetSourceGivenTargetScore(fw, ew); const std::pair<int, int> p(a, b); if (!kf || !ke) vs_assert(g == -1 && h == -1, "unknown words have no probability"); else { const double x = c.count(p) ? c[p] / cf[a] : 0, y = c.count(p) ? c[p] / ce[b] : 0; vs_assert(fabs(g - x) < 1e-12 && fabs(h - y) < 1e-12, "lexical probabilities are relative frequencies of links"); } }
  std::vector<std::shared_ptr<features::Feature> > fs; fs.push_back(std::make_shared<features::TargetGivenSourceCoherent>()); fs.push_back(std::make_shared<features::SampleSourceCount>()); fs.push_back(std::make_shared<features::CountSourceTarget>()); fs.push_back(std::make_shared<features::MaxLexSourceGivenTarget>(tt)); fs.push_back(std::make_shared<features::MaxLexTargetGivenSource>(tt)); fs.push_back(std::make_shared<features::IsSourceSingleton>()); fs.push_back(std::make_shared<features::IsSourceTargetSingleton>());
  HieroCachingRuleFactory f(sa, e, al, voc, pc, std::make_shared<Scorer>(fs), 1, 9, 0, 3, 100, true); const int leave = vs_choice("left out", 2); std::unordered_set<int> bl; if (leave) bl.insert(0); I ids; for (int w : s[0]) ids.push_back(voc->GetTerminalIndex(wd('f', w)));
  const std::vector<Rule> rs = f.GetGrammar(ids, bl).GetRules(); std::map<std::pair<std::string, std::string>, int> pairs; std::map<std::string, int> occ, src; // contiguous phrases, counted by hand
  for (int k = leave; k < 2; ++k) for (size_t i = 0; i < s[k].size(); ++i) { std::string x; for (size_t j = i; j < s[k].size() && j < i + 3; ++j) { x += (x.empty() ? "" : " ") + wd('f', s[k][j]); ++occ[x]; const L& l = al->alignments[k]; int p = 99, q = 0; for (auto& z : l) if (z.first >= (int)i && z.first <= (int)j) { p = std::min(p, z.second); q = std::max(q, z.second + 1); } const Span o = {(int)i, (int)j + 1, p, q}; if (p >= q || !closed(l, o) || !edge(l, i) || !edge(l, j)) continue; std::string y; for (int z = p; z < q; ++z) y += (y.empty() ? "" : " ") + wd('e', t[k][z]); ++pairs[std::make_pair(x, y)]; ++src[x]; } }
  std::set<std::pair<std::string, std::string> > seen; for (const Rule& r : rs) { std::ostringstream a, b; a << r.source_phrase; b << r.target_phrase; const std::pair<std::string, std::string> p(a.str(), b.str()); const bool in = pairs.count(p); vs_assert(in && seen.insert(p).second, "rules are the phrase pairs of the corpus"); if (!in) continue; const double n = pairs[p];
    double want[7] = {-log10(n / occ[p.first]), log10(1. + occ[p.first]), log10(1 + n), 0, 0, src[p.first] == 1 ? 1. : 0., n == 1 ? 1. : 0.};
    std::vector<int> fw, ew; { std::istringstream i1(p.first), i2(p.second); std::string w; while (i1 >> w) fw.push_back(w[1] - 'a'); while (i2 >> w) ew.push_back(w[1] - 'a'); }
    for (int x : fw) { double best = 0; for (int k = -1; k < (int)ew.size(); ++k) { const std::pair<int, int> q(x, k < 0 ? -1 : ew[k]); if (c.count(q)) best = std::max(best, c[q] / ce[q.second]); } want[3] += best > 0 ? -log10(best) : 99; } for (int x : ew) { double best = 0; for (int k = -1; k < (int)fw.size(); ++k) { const std::pair<int, int> q(k < 0 ? -1 : fw[k], x); if (c.count(q)) best = std::max(best, c[q] / cf[q.first]); } want[4] += best > 0 ? -log10(best) : 99; }
    vs_assert(r.scores.size() == 7, "one score per feature"); for (int k = 0; k < 7; ++k) vs_assert(fabs(r.scores[k] - want[k]) < 1e-9, "features follow from the counts"); if (n > 1) vs_reach("repeated"); }
  std::set<std::string> query; for (size_t i = 0; i < s[0].size(); ++i) { std::string x; for (size_t j = i; j < s[0].size() && j < i + 3; ++j) { x += (x.empty() ? "" : " ") + wd('f', s[0][j]); query.insert(x); } } for (auto& p : pairs) if (query.count(p.first.first)) vs_assert(seen.count(p.first), "every phrase pair for the sentence is extracted"); if (leave && rs.size()) vs_reach("left out"); }
static void samples() {
  const int n = 1 + vs_choice("occurrences", OCC), mx = 1 + vs_choice("max", MAXS), k = 1 + vs_choice("chunks", 2), low = vs_choice("low", 2); std::vector<I> s(1); auto d = std::make_shared<DataArray>(); I word(n); std::unordered_set<int> bl; std::vector<char> bad(n); for (int i = 0; i < n; ++i) { bad[i] = vs_choice("left out", 2); if (bad[i]) bl.insert(i); d->sentence_id.push_back(i); d->sentence_id.push_back(i); } // occurrence i sits in sentence i
  PhraseLocation got; I pos; if (k == 1 && low) { auto sa = std::make_shared<SuffixArray>(); sa->data_array = d; d->sentence_id.push_back(0); for (int i = 0; i < n; ++i) sa->suffix_array.push_back(2 * i); sa->suffix_array.insert(sa->suffix_array.begin(), 2 * n); PhraseLocation l(1, n + 1); got = PhraseLocationSampler(sa, mx).Sample(l, bl); } else { I v; for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) v.push_back(2 * i + j); auto sa = std::make_shared<SuffixArray>(); sa->data_array = d; got = PhraseLocationSampler(sa, mx).Sample(PhraseLocation(v, k), bl); }
  vs_assert(got.num_subpatterns == k && got.matchings && got.matchings->size() % k == 0, "samples keep their shape"); const I& g = *got.matchings; int last = -1, good = 0; for (char b : bad) good += !b; const int c = g.size() / k; vs_assert(c <= mx, "no more samples than asked for");
  for (int i = 0; i < c; ++i) { const int o = g[i * k] / 2; const bool in = g[i * k] % 2 == 0 && o >= 0 && o < n; vs_assert(in, "samples are occurrences"); if (!in) return; vs_assert(o > last, "no occurrence is sampled twice"); last = o; vs_assert(!bad[o], "no sample from a sentence left out"); for (int j = 0; j < k; ++j) vs_assert(g[i * k + j] == 2 * o + j, "chunks of one occurrence stay together"); }
  if (n <= mx) vs_assert(c == good, "all occurrences are used when there are few"); if (good == n) vs_assert(c == std::min(n, mx), "as many samples as asked for"); if (good && n > mx && c) vs_reach("sampled"); if (good < n && c) vs_reach("left out"); }
extern "C" void vs_harness() {
#if WHAT == 0
  suffixes();
#elif WHAT == 1
  lookups();
#elif WHAT == 2
  rules();
#elif WHAT == 3
  counts();
#else
  samples();
#endif
}
