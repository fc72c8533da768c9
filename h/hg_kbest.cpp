// Lazy k-best extraction over every small hypergraph: complete, sorted,
// distinct, features and yields of each item, and the unique-yield filter.
#include "hgh.h"
#include "viterbi.h"
#include "kbest.h"
extern "C" void vs_setup() { hg_setup(); FD::Convert("A"); FD::Convert("B"); }
typedef std::vector<WordID> Y;
extern "C" void vs_harness() {
  Hypergraph g;
#ifdef USHAPES
  // forests in which different derivations say the same
  if (vs_choice("shape", 2) == 0) { for (int i = 0; i < 3; ++i) g.AddNode(-TD::Convert("X")); std::vector<int> l, a(1, 0), b(1, 1);
    add_edge(g, 0, l, word(0)); add_edge(g, 0, l, word(1)); add_edge(g, 1, l, word(0)); add_edge(g, 1, l, word(2)); add_edge(g, 2, a, word(4)); add_edge(g, 2, b, word(4)); }
  else { for (int i = 0; i < 2; ++i) g.AddNode(-TD::Convert("X")); std::vector<int> l, a(2, 0);
    add_edge(g, 0, l, word(0)); add_edge(g, 0, l, word(0)); add_edge(g, 0, l, word(1)); add_edge(g, 1, a, word(4)); }
#elif defined(SHAPES)
  shape_hg(g, vs_choice("shape", 6));
#else
  sym_hg(g, NN, MM, AR);
#endif
  vs_assume(all_derivable(g));
  // some rules share their word, so that different derivations share a yield
  const int E = g.edges_.size();
#if defined(UNIQ) && !defined(USHAPES)
  for (int i = 1; i < E; ++i) if (vs_choice("same", 2)) { TRulePtr r(new TRule(*g.edges_[i].rule_)); r->e_[0] = g.edges_[i - 1].rule_->e_[0]; g.edges_[i].rule_ = r; }
#endif
  std::vector<double> lw; sym_probs(g, &lw, -WW, 1, 1);
  const int fa = FD::Convert("A"), fb = FD::Convert("B");
  for (int i = 0; i < E; ++i) { g.edges_[i].feature_values_.set_value(fa, lw[i]); g.edges_[i].feature_values_.set_value(fb, 1 << i); }
  Ref ref(g); const int goal = g.nodes_.size() - 1; const std::vector<DV> all = ref.node(goal);
  std::map<long, int> sig; // the B feature sums 2^edge: identifies the multiset of edges
  const unsigned total = all.size();
#ifdef UNIQ
  // one item per distinct yield, each the best of its class
  std::map<Y, std::vector<int> > cls;
  for (unsigned d = 0; d < total; ++d) { Y y; yield_of(g, all[d], &y); cls[y].push_back(d); }
  typedef KBest::KBestDerivations<Y, ESentenceTraversal, KBest::FilterUnique> K;
  const unsigned k = 1 + vs_choice("k", KK);
  K kb(g, k); std::set<Y> seen; double prev = 0; unsigned n = 0;
  for (; n < k; ++n) {
    const K::Derivation* d = kb.LazyKthBest(goal, n); if (!d) break;
    const double s = log(d->score);
    vs_assert(n == 0 || s <= prev, "unique k-best scores do not increase"); prev = s;
    vs_assert(seen.insert(d->yield).second, "no yield is returned twice by the unique k-best list");
    vs_assert(cls.count(d->yield), "every yield of the unique k-best list is the yield of a derivation");
    const std::vector<int>& c = cls[d->yield]; bool att = false;
    for (unsigned i = 0; i < c.size(); ++i) { const double x = score(all[c[i]], lw); vs_assert(x <= s, "the unique k-best list scores each yield by its best derivation"); att |= x == s; }
    vs_assert(att, "the score of a unique k-best item is the score of a derivation with that yield");
    vs_assert(d->feature_values.value(fa) == s, "k-best features sum over the derivation");
  }
  vs_assert(n == std::min<size_t>(k, cls.size()), "the unique k-best list returns min(k, number of distinct yields) items");
  for (std::map<Y, std::vector<int> >::iterator it = cls.begin(); it != cls.end(); ++it) if (!seen.count(it->first))
    for (unsigned i = 0; i < it->second.size(); ++i) vs_assert(score(all[it->second[i]], lw) <= prev, "no yield left out of the unique k-best list has a better derivation");
  if (cls.size() < total && n > 1) vs_reach("ambiguous");
#else
  std::map<std::pair<long, Y>, int> want; std::vector<std::pair<long, Y> > keys;
  for (unsigned d = 0; d < total; ++d) { Y y; yield_of(g, all[d], &y); long b = 0; for (unsigned i = 0; i < all[d].size(); ++i) b += 1L << all[d][i]; keys.push_back(std::make_pair(b, y)); want[keys.back()]++; }
  const unsigned k = 1 + vs_choice("k", KK);
  std::map<std::pair<long, Y>, int> got; double prev = 0; unsigned n = 0;
  typedef KBest::KBestDerivations<Y, ESentenceTraversal> K;
  K kb(g, k);
  for (; n < k; ++n) {
    const K::Derivation* d = kb.LazyKthBest(goal, n); if (!d) break;
    const double s = log(d->score);
    vs_assert(n == 0 || s <= prev, "k-best scores do not increase"); prev = s;
    vs_assert(d->feature_values.value(fa) == s, "the score of a k-best item is the sum of its edges' weights");
    std::pair<long, Y> key((long)d->feature_values.value(fb), d->yield);
    got[key]++;
    vs_assert(want.count(key) && got[key] <= want[key], "every k-best item is a derivation, and none is returned twice");
  }
  vs_assert(n == std::min(k, total), "the k-best list returns min(k, number of derivations) items");
  for (unsigned d = 0; d < total; ++d) if (!got.count(keys[d])) vs_assert(score(all[d], lw) <= prev, "no derivation left out of the k-best list is better than its last item");
  // asking again, in any order, gives the same items
  if (n) { const K::Derivation* a = kb.LazyKthBest(goal, 0); vs_assert(a && log(a->score) >= prev, "asking again for the best item gives the best item"); }
  if (total > k && k > 1) vs_reach("ambiguous");
#endif
}
