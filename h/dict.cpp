// Dictionaries: words and ids correspond one to one, lines split at blanks.
#include "vsym.h"
#include <string>
#include <vector>
#include "dict.h"
#include "fdict.h"
#include "tdict.h"
#include "stringlib.h"
using namespace std;
typedef vector<string> S;
static string word(const char* n) { static const char al[] = "abB|"; string r; const int k = vs_choice(n, 3); for (int i = 0; i < k; ++i) r += al[vs_choice("c", 4)]; return r; }
static S split(const string& l) { S r; string cur; for (size_t i = 0; i < l.size(); ++i) { if (l[i] == ' ' || l[i] == '\t') { if (!cur.empty()) r.push_back(cur); cur.clear(); } else cur += l[i]; } if (!cur.empty()) r.push_back(cur); return r; }
static void words() {
  Dict d; const string a = word("a"), b = word("b"); const bool pre = vs_choice("pre", 2);
  if (pre) d.Convert("zz");
  const int before = d.max();
  vs_assert(d.Convert(a, true) == 0 && d.max() == before, "a frozen dictionary maps an unknown word to 0 and adds nothing");
  const int ia = d.Convert(a), ib = d.Convert(b);
  vs_assert(ia > 0 && ib > 0, "a word gets a positive id");
  vs_assert((ia == ib) == (a == b), "different words get different ids, equal words the same");
  vs_assert(d.Convert(ia) == a && d.Convert(ib) == b, "an id converts back to its word");
  vs_assert(d.Convert(a) == ia && d.Convert(a, true) == ia && d.Convert(b, true) == ib, "converting a word again gives the same id");
  vs_assert(d.max() == before + (a == b ? 1 : 2), "each new word takes one id");
  if (pre) vs_assert(d.Convert(1) == "zz" && d.Convert("zz") == 1, "earlier words keep their ids");
  vs_reach("words");
}
static void many() { // growth keeps ids
  Dict d; const int n = 900 + 300 * vs_choice("n", 2); vector<int> id;
  for (int i = 0; i < n; ++i) { string w = "w"; for (int k = i; k; k /= 7) w += 'a' + k % 7; id.push_back(d.Convert(w)); }
  for (int i = 0; i < n; ++i) { string w = "w"; for (int k = i; k; k /= 7) w += 'a' + k % 7; vs_assert(d.Convert(w) == id[i] && d.Convert(id[i]) == w, "ids survive growth"); }
  vs_reach("many");
}
static void lines() {
  static const char al[] = "a \tb"; string l;
  const int n = vs_choice("len", NN + 1); for (int i = 0; i < n; ++i) l += al[vs_choice("c", 4)];
  const S want = split(l);
  Dict d; vector<int> ids(3, 9); d.ConvertWhitespaceDelimitedLine(l, &ids);
  vs_assert(ids.size() == want.size(), "a line has one id per blank-separated word");
  for (size_t i = 0; i < want.size(); ++i) vs_assert(d.Convert(ids[i]) == want[i], "the ids are those of the words in order");
  vector<WordID> t(2, 5); TD::ConvertSentence(l, &t);
  vs_assert(t.size() == want.size(), "a sentence has one id per blank-separated word");
  string j; for (size_t i = 0; i < want.size(); ++i) { vs_assert(TD::Convert(t[i]) == want[i], "the sentence ids are those of the words in order"); if (i) j += ' '; j += want[i]; }
  vs_assert(TD::GetString(t) == j, "ids convert back to the words with single spaces");
  if (!t.empty()) vs_assert(TD::GetString(&t[0], &t[0] + t.size()) == j, "a range of ids converts back to the words");
  S sp(1, "x"); SplitOnWhitespace(l, &sp); vs_assert(sp == want, "splitting at whitespace yields the words");
  string cmd = "x", par = "y", wp; SplitCommandAndParam(l, &cmd, &par); for (size_t i = 1; i < want.size(); ++i) { if (i > 1) wp += ' '; wp += want[i]; }
  vs_assert(cmd == (want.empty() ? "" : want[0]) && par == wp, "a command is the first word, its parameter the rest");
  vs_reach("lines");
}
static void multi() { // compound words
  Dict d; S p; const int n = 1 + vs_choice("n", 3); for (int i = 0; i < n; ++i) { static const char* w[] = {"a", "b", "a b"}; p.push_back(w[vs_choice("w", 3)]); }
  const int id = d.Convert(p); S q(1, "junk"); d.AsVector(id, &q); vs_assert(q == p, "a compound entry splits back into its parts");
  S p2(p); p2.push_back("c"); vs_assert(d.Convert(p2) != id && d.Convert(p) == id, "different compounds get different ids");
  vs_reach("multi");
}
static void feats() {
  const string a = word("a"); const int known = FD::Convert("known"); const int ia = FD::Convert(a); const int n = FD::NumFeats();
  vs_assert(FD::Convert(ia) == a && FD::Convert(a) == ia && ia > 0 && ia < n, "a feature id converts back to its name");
  FD::Freeze(); vs_assert(FD::Convert("unseen") == 0 && FD::NumFeats() == n && FD::Convert("known") == known && FD::Convert(a) == ia, "once frozen, known features keep their ids and new ones map to 0");
  vs_reach("feats");
}
extern "C" void vs_harness() { switch (vs_choice("part", 5)) { case 0: words(); break; case 1: many(); break; case 2: lines(); break; case 3: multi(); break; default: feats(); } }
