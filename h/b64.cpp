// Base64 and the two feature-vector codecs, against the standard alphabet.
#include "vsym.h"
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
#include "b64tools.h"
#include "b64featvector.h"
#include "sparse_vector.h"
#include "fdict.h"
using namespace std;
static unsigned long long bits(double d) { unsigned long long r; memcpy(&r, &d, 8); return r; }
static const char ALPH[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static unsigned char code(unsigned v) { return ALPH[v & 63]; }
static void raw() {
  const int n = 1 + vs_choice("n", MAXB);
  unsigned char d[16]; vs_bytes("d", d, n);
  ostringstream os; B64::b64encode((const char*)d, n, &os); const string s = os.str();
  vs_assert(s.size() == (size_t)(n + 2) / 3 * 4, "the text has four characters for every three bytes, rounded up");
  for (int i = 0; i < n; i += 3) {
    const unsigned a = d[i], b = i + 1 < n ? d[i + 1] : 0, c = i + 2 < n ? d[i + 2] : 0; const char* q = &s[i / 3 * 4];
    vs_assert((unsigned char)q[0] == code(a >> 2) && (unsigned char)q[1] == code((a & 3) << 4 | b >> 4), "the first two characters are the standard ones");
    vs_assert((unsigned char)q[2] == (i + 1 < n ? code((b & 15) << 2 | c >> 6) : '='), "the third character is the standard one");
    vs_assert((unsigned char)q[3] == (i + 2 < n ? code(c & 63) : '='), "the fourth character is the standard one");
  }
  char out[24]; memset(out, 0x5a, sizeof out);
  const size_t len = s.size() / 4 * 3;
  vs_assert(B64::b64decode((const unsigned char*)s.data(), s.size(), out, len), "encoded text decodes");
  for (int i = 0; i < n; ++i) vs_assert((unsigned char)out[i] == d[i], "decoding returns the original bytes");
  for (size_t i = n; i < len; ++i) vs_assert(out[i] == 0, "padding decodes to zero bytes");
  for (size_t i = len; i < sizeof out; ++i) vs_assert(out[i] == 0x5a, "nothing is written past the decoded bytes");
  vs_reach("raw");
}
static void bad() { // a character outside the alphabet's range is rejected
  char t[8]; for (int i = 0; i < 8; ++i) t[i] = "QUJDREVG"[i];
  const int at = vs_choice("at", 8); unsigned char c; vs_bytes("c", &c, 1); vs_assume(c < 43 || c > 122); t[at] = (char)c;
  char out[8]; vs_assert(!B64::b64decode((const unsigned char*)t, 8, out, 8), "a character outside the alphabet is rejected");
  vs_reach("rejected");
}
static string name(int len, char c) { return string(len, c); }
static double dbl(const char* n) { unsigned long long b = 0x3ff1234567890abcULL; unsigned char c; vs_bytes(n, &c, 1); const int at = vs_choice("byte", 3) * 3; double d; memcpy(&d, &b, 8); ((unsigned char*)&d)[at] ^= c; return d; } // one symbolic byte
static void vec() {
  static const int lens[] = {1, 2, 3, 127, 128, 255};
  const int which = vs_choice("codec", 2), n = 1 + vs_choice("feats", 2);
  SparseVector<double> v; vector<int> ids; vector<double> vals;
  for (int i = 0; i < n; ++i) { const int id = FD::Convert(name(lens[vs_choice("len", 6)], 'a' + i)); const double x = i ? -0.1 : dbl("x"); v.set_value(id, x); ids.push_back(id); vals.push_back(x); }
  SparseVector<double> w; w.set_value(77, 4);
  if (which == 0) { const string t = EncodeFeatureVector(v); DecodeFeatureVector(t, &w); }
  else {
    const double obj = 1.5;
    ostringstream os; B64::Encode(obj, v, &os); const string t = os.str(); double o2 = 0;
    vs_assert(B64::Decode(&o2, &w, t.data(), t.size()), "an encoded vector decodes");
    vs_assert(bits(o2) == bits(obj), "the objective survives the round trip");
  }
  vs_assert(w.size() == v.size(), "decoding returns as many features as were encoded");
  for (int i = 0; i < n; ++i) vs_assert(bits(w.value(ids[i])) == bits(vals[i]), "decoding returns the encoded values");
  vs_reach(which ? "vec1" : "vec0");
}
extern "C" void vs_setup() { cerr.setstate(ios::failbit); }
extern "C" void vs_harness() { const int k = vs_choice("part", 3); if (k == 0) raw(); else if (k == 1) bad(); else vec(); }
