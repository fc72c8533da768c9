// Text helpers on lines of arbitrary bytes.
#include "vsym.h"
#include <map>
#include <string>
#include <vector>
#include "stringlib.h"
using namespace std;
typedef vector<string> S;
static string text(const char* n, int len) { string r(len, 'x'); if (len) vs_bytes(n, &r[0], len); for (int i = 0; i < len; ++i) vs_assume(r[i] != 0); return r; }
static bool eq(const string& s, const string& l, size_t b, size_t e) { if (s.size() != e - b) return false; for (size_t i = 0; i < s.size(); ++i) if (s[i] != l[b + i]) return false; return true; }
static void tokens() {
  const int which = vs_choice("fn", 2); const string l = text("l", vs_choice("len", NN + 1));
  S out(2, "junk"); if (which == 0) Tokenize(l, ',', &out); else SplitOnWhitespace(l, &out);
  size_t k = 0, b = 0;
  for (size_t i = 0; i <= l.size(); ++i) { const bool sep = i == l.size() || (which == 0 ? l[i] == ',' : l[i] == ' ' || l[i] == '\t');
    if (sep) { if (i > b) { vs_assert(k < out.size() && eq(out[k], l, b, i), "tokens are the maximal stretches between delimiters"); ++k; } b = i + 1; } }
  vs_assert(k == out.size(), "there are no other tokens");
  if (which == 0) vs_assert(NTokens(l, ',') == k, "counting tokens agrees with splitting");
  vs_reach("tokens");
}
static void trim() {
  const string l = text("l", vs_choice("len", NN + 1)); const string t = Trim(l);
  size_t b = 0, e = l.size(); while (b < e && (l[b] == ' ' || l[b] == '\t')) ++b; while (e > b && (l[e - 1] == ' ' || l[e - 1] == '\t')) --e;
  vs_assert(eq(t, l, b, e), "trimming removes exactly the blanks at both ends"); vs_reach("trim");
}
static void multisep() {
  const string l = text("l", vs_choice("len", NN + 1)); const string sep("||"); vector<StringPiece> out = TokenizeMultisep(l, sep);
  size_t k = 0, b = 0, cnt = 0;
  for (size_t i = 0; i < l.size();) { if (i + 1 < l.size() && l[i] == '|' && l[i + 1] == '|') { ++cnt; vs_assert(k < out.size() && eq(string(out[k].data(), out[k].size()), l, b, i), "pieces lie between separators"); ++k; i += 2; b = i; } else ++i; }
  if (b < l.size()) { vs_assert(k < out.size() && eq(string(out[k].data(), out[k].size()), l, b, l.size()), "the last piece reaches the end"); ++k; }
  vs_assert(k == out.size(), "there are no other pieces");
  vs_assert(CountSubstrings(l, sep) == (int)cnt, "substrings are counted without overlap"); vs_reach("multisep");
}
static void input() { // source ||| reference
  const int ns = vs_choice("src", 3), nr = vs_choice("ref", 3), form = vs_choice("form", 4); const string s = text("s", ns), r = text("r", nr);
  for (int i = 0; i < ns; ++i) vs_assume(s[i] != '|'); for (int i = 0; i < nr; ++i) vs_assume(r[i] != '|');
  string in = "old", ref = form ? "old" : "";
  if (form == 0) { ParseTranslatorInput(s, &in, &ref); vs_assert(in == s && ref == "", "a line without a separator is all source"); }
  else if (form == 1) { ParseTranslatorInput(s + " ||| " + r, &in, &ref); vs_assert(in == s && ref == r, "the separator divides source and reference"); }
  else if (form == 2) { ParseTranslatorInput(s + " |||", &in, &ref); vs_assert(in == s && ref == "", "a separator at the end leaves the reference empty"); }
  else { ParseTranslatorInput("||| " + r, &in, &ref); vs_assert(in == "" && ref == r, "a separator at the start leaves the source empty"); }
  vs_reach("input");
}
static void sgml() {
  static const char* labs[] = {"i", "id", "grammar"}; static const char* eqs[] = {"=", " =", "= ", " = ", "=  ", "  =  "};
  const int n = 1 + vs_choice("n", 2); const int l0 = vs_choice("label", 3); string line = "<seg"; map<string, string> want;
  for (int k = 0; k < n; ++k) {
    const string lab = labs[(l0 + k) % 3]; const bool q = vs_choice("quoted", 2); string v = text("v", n == 2 ? 1 : 2);
    for (size_t i = 0; i < v.size(); ++i) vs_assume(v[i] != '"' && v[i] != '>' && v[i] != ' ' && v[i] != '\t' && v[i] != '=');
    want[lab] = v; line += " " + lab + eqs[vs_choice("eq", n == 2 ? 1 : 6)] + (q ? "\"" + v + "\"" : v);
  }
  string body = text("t", n == 2 ? 1 : 2); for (size_t i = 0; i < body.size(); ++i) vs_assume(body[i] != '<');
  line += ">" + body + "</seg>";
  map<string, string> got; string rest = line; ProcessAndStripSGML(&rest, &got);
  vs_assert(rest == Trim(body), "the text between the tags is the sentence");
  vs_assert(got.size() == want.size(), "every attribute is read, and nothing else");
  for (map<string, string>::iterator i = want.begin(); i != want.end(); ++i) vs_assert(got.count(i->first) && got[i->first] == i->second, "every attribute has its value");
  string again = SGMLOpenSegTag(want) + body + "</seg>"; map<string, string> g2; ProcessAndStripSGML(&again, &g2);
  vs_assert(g2 == want && again == Trim(body), "a written tag reads back");
  vs_reach("sgml");
}
static void plain() { string l = text("l", vs_choice("len", 6)); vs_assume(l.size() < 4 || !(l[0] == '<' && (l[1] == 's' || l[1] == 'S'))); const string o = l; map<string, string> m; ProcessAndStripSGML(&l, &m); vs_assert(l == o && m.empty(), "a line without a segment tag is unchanged"); vs_reach("plain"); }
static void utf8() {
  string s; const int n = vs_choice("n", 4); for (int i = 0; i < n; ++i) { const int k = 1 + vs_choice("k", 4); string c = text("c", k);
    const unsigned char x = c[0]; vs_assume(k == 1 ? x < 0x80 : k == 2 ? (x >= 0xc0 && x < 0xe0) : k == 3 ? (x >= 0xe0 && x < 0xf0) : (x >= 0xf0 && x < 0xf8)); s += c; }
  vs_assert(UTF8StringLen(s) == (unsigned)n, "the length in characters counts lead bytes"); vs_reach("utf8");
}
extern "C" void vs_harness() { switch (vs_choice("part", 7)) { case 0: tokens(); break; case 1: trim(); break; case 2: multisep(); break; case 3: input(); break; case 4: sgml(); break; case 5: plain(); break; default: utf8(); } }
