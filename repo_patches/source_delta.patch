From fca1346eabdc50bdc7b562fe0e29ebd5b503d944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 01/39] fix: Outside drops inside factors when a node is in two
 tail positions of an edge

---
 decoder/inside_outside.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/inside_outside.h b/decoder/inside_outside.h
index d5bda63..fa5a85b 100644
--- a/decoder/inside_outside.h
+++ b/decoder/inside_outside.h
@@ -84,7 +84,7 @@ void Outside(const Hypergraph& hg,
         WeightType inside_contribution = WeightType(1);
         for (int l = 0; l < num_tail_nodes; ++l) {
           const int other_tail_node_index = edge.tail_nodes_[l];
-          if (update_tail_node_index != other_tail_node_index)
+          if (l != k)  // a node may occur in several tail positions
             inside_contribution *= inside_score[other_tail_node_index];
         }
         inside_contribution *= head_and_edge_weight;
-- 
2.43.0


From 39025c53fa1943d26e5c24aeb65be3b973e229f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 02/39] fix: subset hypergraphs number their nodes by the
 copied node's id

---
 decoder/hg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/hg.h b/decoder/hg.h
index c756012..21debbe 100644
--- a/decoder/hg.h
+++ b/decoder/hg.h
@@ -186,7 +186,7 @@ namespace HG {
     }
     void copy_reindex(Node const& o,indices_after const& n2,indices_after const& e2) {
       copy_fixed(o);
-      id_=n2[id_];
+      id_=n2[o.id_];
       e2.reindex_push_back(o.in_edges_,in_edges_);
       e2.reindex_push_back(o.out_edges_,out_edges_);
     }
-- 
2.43.0


From 65418d4e9014e88d999616efda8be627dc9b1af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 03/39] fix: PushViterbiWeightsToGoal reads node scores from a
 vector it never fills

---
 decoder/hg.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/decoder/hg.cc b/decoder/hg.cc
index 46543b0..3e442c3 100644
--- a/decoder/hg.cc
+++ b/decoder/hg.cc
@@ -223,8 +223,7 @@ prob_t Hypergraph::ComputeNodeViterbi(NodeProbs *np) const
 // save pushed weight ot some fid if we want.  0 = don't care
 prob_t Hypergraph::PushViterbiWeightsToGoal(int fid) {
   vpusher vi(fid);
-  NodeProbs np;
-  prob_t r=ComputeNodeViterbi(&np);
+  prob_t r=Inside(*this, static_cast<vector<TropicalValue>*>(&vi), ViterbiWeightFunction()).v_;
   visit_edges(vi);
   return r;
 }
-- 
2.43.0


From 4b9c2ba02f1b302bc105353066c55965874d67a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 04/39] fix: scaled sum-product pruning mixes scaled and
 unscaled edge weights

---
 decoder/hg.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/decoder/hg.cc b/decoder/hg.cc
index 3e442c3..f1d3cb8 100644
--- a/decoder/hg.cc
+++ b/decoder/hg.cc
@@ -349,7 +349,10 @@ bool Hypergraph::PruneInsideOutside(double alpha,double density,const EdgeMask*
   else
     io.compute(*this,norm,ViterbiWeightFunction());  // the storage gets cast to Tropical from prob_t, scary - e.g. w/ specialized static allocator differences it could break.
   vector<prob_t> mm;
-  io.compute_edge_marginals(*this,mm,EdgeProb()); // should be normalized to 1 for best edges in viterbi.  in sum, best is less than 1.
+  if (use_sum_prod_semiring)
+    io.compute_edge_marginals(*this,mm,ScaledEdgeProb(scale));
+  else
+    io.compute_edge_marginals(*this,mm,EdgeProb()); // should be normalized to 1 for best edges in viterbi.  in sum, best is less than 1.
 
   prob_t cutoff=prob_t::One(); // we'll destroy everything smaller than this (note: nothing is bigger than 1).  so bigger cutoff = more pruning.
   bool density_won=false;
-- 
2.43.0


From 6df6cbdc6f8a2e50a907ee0e80e4dcc19b86f107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 05/39] fix: Hypergraph::Union loses the weights, spans and
 categories of the other graph

---
 decoder/hg.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/hg.cc b/decoder/hg.cc
index f1d3cb8..4b60ec5 100644
--- a/decoder/hg.cc
+++ b/decoder/hg.cc
@@ -426,6 +426,7 @@ void Hypergraph::Union(const Hypergraph& other) {
   for (int i = 0; i < ogoal; ++i) {
     const Node& on = other.nodes_[i];
     Node& cn = nodes_[i + noff];
+    cn.copy_fixed(on);
     cn.id_ = i + noff;
     cn.in_edges_.resize(on.in_edges_.size());
     for (unsigned j = 0; j < on.in_edges_.size(); ++j)
@@ -440,8 +441,7 @@ void Hypergraph::Union(const Hypergraph& other) {
     const Edge& oe = other.edges_[i];
     Edge& ce = edges_[i + eoff];
     ce.id_ = i + eoff;
-    ce.rule_ = oe.rule_;
-    ce.feature_values_ = oe.feature_values_;
+    ce.copy_fixed(oe);
     if (oe.head_node_ == ogoal) {
       ce.head_node_ = cgoal;
       nodes_[cgoal].in_edges_.push_back(ce.id_);
-- 
2.43.0


From 0902e9d4f3cfc37dc11ebe5e79353e03d826db38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 06/39] fix: LogVal orders negative values by magnitude

---
 utils/logval.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/logval.h b/utils/logval.h
index 0c9ee98..f3daef0 100644
--- a/utils/logval.h
+++ b/utils/logval.h
@@ -118,10 +118,10 @@ class LogVal {
 
   //remember, s_ means negative.
   inline bool lt(Self const& o) const {
-    return s_==o.s_ ? v_ < o.v_ : s_ > o.s_;
+    return s_==o.s_ ? (s_ ? o.v_ < v_ : v_ < o.v_) : s_ > o.s_;
   }
   inline bool gt(Self const& o) const {
-    return s_==o.s_ ? o.v_ < v_ : s_ < o.s_;
+    return s_==o.s_ ? (s_ ? v_ < o.v_ : o.v_ < v_) : s_ < o.s_;
   }
 
   Self operator-() const {
@@ -219,7 +219,7 @@ bool operator!=(const LogVal<T>& lhs, const LogVal<T>& rhs) {
 template <class T>
 bool operator<(const LogVal<T>& lhs, const LogVal<T>& rhs) {
   if (lhs.s_ == rhs.s_) {
-    return (lhs.v_ < rhs.v_);
+    return lhs.s_ ? rhs.v_ < lhs.v_ : lhs.v_ < rhs.v_;
   } else {
     return lhs.s_ > rhs.s_;
   }
-- 
2.43.0


From 229f524e2990a2821384a6ddbb5944a4e2d034d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 07/39] fix: erasing an absent index from a sparse vector drops
 its last entry

---
 utils/fast_sparse_vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/fast_sparse_vector.h b/utils/fast_sparse_vector.h
index 0697fc4..16cbda6 100644
--- a/utils/fast_sparse_vector.h
+++ b/utils/fast_sparse_vector.h
@@ -204,9 +204,10 @@ class FastSparseVector {
             data_.local[j-1].first() = data_.local[j].first();
             data_.local[j-1].second() = data_.local[j].second();
           }
+          --local_size_;
+          return;
         }
       }
-      --local_size_;
     }
   }
   const FastSparseVector<T>& operator=(const FastSparseVector<T>& other) {
-- 
2.43.0


From 9785ba5732f8d0c3f799863a206004d46ee296f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 08/39] fix: sparse vectors with explicit zeros compare equal
 to unequal ones

---
 utils/fast_sparse_vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/fast_sparse_vector.h b/utils/fast_sparse_vector.h
index 16cbda6..4d021e2 100644
--- a/utils/fast_sparse_vector.h
+++ b/utils/fast_sparse_vector.h
@@ -403,7 +403,8 @@ class FastSparseVector {
   bool operator==(const FastSparseVector<T>& other) const {
     if (other.size() != size()) return false;
     for (const_iterator it = begin(), e = end(); it != e; ++it) {
-      if (other.value(it->first) != it->second) return false;
+      const const_iterator o = other.find(it->first);
+      if (o == other.end() || o->second != it->second) return false;
     }
     return true;
   }
-- 
2.43.0


From 2ce76418820f9e1ffb0158cc7a867cb922497c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 09/39] fix: base64 encoding drops bits of the last byte when
 two bytes remain

---
 utils/b64tools.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/b64tools.cc b/utils/b64tools.cc
index 78c1cb4..bc5074a 100644
--- a/utils/b64tools.cc
+++ b/utils/b64tools.cc
@@ -13,7 +13,7 @@ static void encodeblock(const unsigned char* in, ostream* os, int len) {
   // cerr << len << endl;
   out[0] = cb64[ in[0] >> 2 ];
   out[1] = cb64[ ((in[0] & 0x03) << 4) | (len > 1 ? ((in[1] & 0xf0) >> 4) : static_cast<unsigned char>(0))];
-  out[2] = (len > 2 ? cb64[ ((in[1] & 0x0f) << 2) | ((in[2] & 0xc0) >> 6) ] : '=');
+  out[2] = (len > 1 ? cb64[ ((in[1] & 0x0f) << 2) | (len > 2 ? ((in[2] & 0xc0) >> 6) : 0) ] : '=');
   out[3] = (len > 2 ? cb64[ in[2] & 0x3f ] : '=');
   os->write(out, 4);
 }
-- 
2.43.0


From 25bdd4676c743a5763086bff75f27b298f5a74cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 10/39] fix: sparse vector decoding fails on feature names
 longer than 127 bytes

---
 utils/sparse_vector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_vector.cc b/utils/sparse_vector.cc
index 00e7bd6..9e957fa 100644
--- a/utils/sparse_vector.cc
+++ b/utils/sparse_vector.cc
@@ -71,7 +71,7 @@ bool Decode(double* objective, SparseVector<double>* v, const char* in, size_t s
   int fc = 0;
   while(fc < num_feats && cur < decoded_size) {
     ++fc;
-    const int fname_len = data[cur++];
+    const int fname_len = static_cast<unsigned char>(data[cur++]);
     assert(fname_len > 0);
     assert(fname_len < 256);
     string fname(fname_len, '\0');
-- 
2.43.0


From c05207eb21b433c48c13b512e2fa64d6cfeb33d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 11/39] fix: translator input with an empty source or reference
 side

---
 utils/stringlib.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/stringlib.cc b/utils/stringlib.cc
index 1a15298..9a46eab 100644
--- a/utils/stringlib.cc
+++ b/utils/stringlib.cc
@@ -22,8 +22,8 @@ void ParseTranslatorInput(const string& line, string* input, string* ref) {
   size_t pos = line.find("|||", hint);
   if (pos == string::npos) { *input = line; return; }
   ref->clear();
-  *input = line.substr(0, pos - 1);
-  string rline = line.substr(pos + 4);
+  *input = line.substr(0, pos > 0 ? pos - 1 : 0);
+  string rline = pos + 4 < line.size() ? line.substr(pos + 4) : string();
   if (rline.size() > 0) {
     assert(ref);
     *ref = rline;
-- 
2.43.0


From 1f7d468786bfdb39ea6ea0e06cbf65ac7005a640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 12/39] fix: SGML attributes after an unquoted value are lost

---
 utils/stringlib.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/stringlib.cc b/utils/stringlib.cc
index 9a46eab..189bddd 100644
--- a/utils/stringlib.cc
+++ b/utils/stringlib.cc
@@ -82,6 +82,7 @@ void ProcessAndStripSGML(string* pline, map<string, string>* out) {
         } else {
           seg = val.substr(close+1);
           val = val.substr(0, close);
+          i = 0;
         }
       }
       label = Trim(label);
-- 
2.43.0


From 22754c920a9a2fe19545368470862fd9f5c424c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:36 +0000
Subject: [PATCH 13/39] fix: weights files shorter than five bytes cannot be
 read

---
 utils/weights.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils/weights.cc b/utils/weights.cc
index 7d5d96d..386be50 100644
--- a/utils/weights.cc
+++ b/utils/weights.cc
@@ -25,8 +25,7 @@ void Weights::InitFromFile(const string& filename,
     assert(hi);
     char buf[10];
     hi.read(buf, 5);
-    assert(hi.good());
-    if (strncmp(buf, "_PHWf", 5) == 0) {
+    if (hi.good() && strncmp(buf, "_PHWf", 5) == 0) {
       read_text = false;
     }
   }
-- 
2.43.0


From 612fcf5225d695f3a79997ac247179a722925c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:00 +0000
Subject: [PATCH 14/39] fix: unset categories read back unset from binary
 forests

---
 decoder/hg.h    | 2 +-
 decoder/trule.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/hg.h b/decoder/hg.h
index 21debbe..a2bcd29 100644
--- a/decoder/hg.h
+++ b/decoder/hg.h
@@ -175,7 +175,7 @@ namespace HG {
       ar & node_hash;
       ar & id_;
       std::string cat; ar & cat;
-      cat_ = -TD::Convert(cat);
+      cat_ = (cat == TD::Convert(WordID(0))) ? 0 : -TD::Convert(cat); // unset categories stay unset
       ar & in_edges_;
       ar & out_edges_;
     }
diff --git a/decoder/trule.h b/decoder/trule.h
index dda85ce..6690351 100644
--- a/decoder/trule.h
+++ b/decoder/trule.h
@@ -196,7 +196,7 @@ class TRule {
   }
   template<class Archive>
   void load(Archive & ar, const unsigned int /*version*/) {
-    std::string lhs; ar & lhs; lhs_ = -TD::Convert(lhs);
+    std::string lhs; ar & lhs; lhs_ = (lhs == TD::Convert(WordID(0))) ? 0 : -TD::Convert(lhs);
     unsigned f_size; ar & f_size;
     f_.resize(f_size);
     size_t f_nt_mask; ar & f_nt_mask;
-- 
2.43.0


From 4c4ef33c2500f3a8c5f8987b0bf16bbabbb52d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:00 +0000
Subject: [PATCH 15/39] fix: initialize the edge-order flag that binary forests
 store

---
 decoder/hg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/hg.h b/decoder/hg.h
index a2bcd29..4f528dd 100644
--- a/decoder/hg.h
+++ b/decoder/hg.h
@@ -200,7 +200,7 @@ typedef boost::shared_ptr<Hypergraph> HypergraphP;
 //  - edges have 1 head, 0..n tails
 class Hypergraph {
 public:
-  Hypergraph() : is_linear_chain_(false) {}
+  Hypergraph() : is_linear_chain_(false), edges_topo_(true) {}
   typedef HG::Node Node;
   typedef HG::Edge Edge;
   typedef SmallVectorUnsigned TailNodeVector; // indices in nodes_
-- 
2.43.0


From 610d9596a0274fdf29fcf2fdf4c5480a8b337659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:00 +0000
Subject: [PATCH 16/39] fix: printed search-space grammars permute three or
 more variables correctly

---
 decoder/hg_io.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/hg_io.cc b/decoder/hg_io.cc
index 71f50a2..8576ac0 100644
--- a/decoder/hg_io.cc
+++ b/decoder/hg_io.cc
@@ -355,7 +355,7 @@ void HypergraphIO::WriteAsCFG(const Hypergraph& hg) {
       if (cur > 0) {
         f[j] = cur;
       } else {
-        tn[ntc++] = cur;
+        tn[-cur] = -(ntc++);  // position of this variable in the new source side
         f[j] = cats[edge.tail_nodes_[-cur]];
       }
     }
-- 
2.43.0


From ae5102979d1454c21d03f4a5a15601a78be77b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:08 +0000
Subject: [PATCH 17/39] fix: lattices are written with the cost feature the
 lattice reader sets

---
 decoder/hg_io.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/hg_io.cc b/decoder/hg_io.cc
index 8576ac0..16d4180 100644
--- a/decoder/hg_io.cc
+++ b/decoder/hg_io.cc
@@ -88,9 +88,9 @@ string HypergraphIO::AsPLF(const Hypergraph& hg, bool include_global_parentheses
 }
 
 // TODO this should write out the PLF with the Python dictionary format
-// rather than just the single "LatticeCost" feature
+// rather than just the single "LatticeCost_0" feature
 double PLFFeatureDictionary(const SparseVector<double>& f) {
-  return f.get(FD::Convert("LatticeCost"));
+  return f.get(FD::Convert("LatticeCost_0"));
 }
 
 string HypergraphIO::AsPLF(const Lattice& lat, bool include_global_parentheses) {
-- 
2.43.0


From cd9a20694872ec2226eef1077be8ba5931bf4999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:24 +0000
Subject: [PATCH 18/39] fix: read the last rule of a grammar that does not end
 in a newline

---
 decoder/rule_lexer.ll | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/decoder/rule_lexer.ll b/decoder/rule_lexer.ll
index 8b48ab7..62375a1 100644
--- a/decoder/rule_lexer.ll
+++ b/decoder/rule_lexer.ll
@@ -22,8 +22,17 @@ void* rule_callback_extra = NULL;
 std::vector<int> scfglex_phrase_fnames;
 std::string scfglex_fname;
 
+// a final line without a newline still ends a rule
+static char scfglex_last_char = '\n';
+static int scfglex_read(char* buf, int max_size) {
+  int n = scfglex_stream->read(buf, max_size).gcount();
+  if (n == 0 && scfglex_last_char != '\n') { buf[0] = '\n'; n = 1; }
+  if (n > 0) scfglex_last_char = buf[n - 1];
+  return n;
+}
+
 #undef YY_INPUT
-#define YY_INPUT(buf, result, max_size) (result = scfglex_stream->read(buf, max_size).gcount())
+#define YY_INPUT(buf, result, max_size) (result = scfglex_read(buf, max_size))
 
 #define YY_SKIP_YYWRAP 1
 int num_rules = 0;
@@ -349,6 +358,7 @@ void RuleLexer::ReadRules(std::istream* in, RuleLexer::RuleCallback func, const
   lex_line = 1;
   scfglex_fname = fname;
   scfglex_stream = in;
+  scfglex_last_char = '\n';
   rule_callback_extra = extra,
   rule_callback = func;
   yylex();
-- 
2.43.0


From 1d406d5374dc0dd7e6e7ad330b76a1831b168b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:24 +0000
Subject: [PATCH 19/39] fix: initialise the counters of a tree fragment read
 from text

---
 decoder/tree_fragment.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/tree_fragment.cc b/decoder/tree_fragment.cc
index ff406ad..fefa474 100644
--- a/decoder/tree_fragment.cc
+++ b/decoder/tree_fragment.cc
@@ -8,7 +8,7 @@ using namespace std;
 
 namespace cdec {
 
-TreeFragment::TreeFragment(const StringPiece& tree, bool allow_frontier_sites) {
+TreeFragment::TreeFragment(const StringPiece& tree, bool allow_frontier_sites) : frontier_sites(), terminals() {
   int bal = 0;
   const unsigned len = tree.size();
   unsigned cur = 0;
-- 
2.43.0


From 3da83fcedb33d4ab257e152fc6330bdcb5483660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:24 +0000
Subject: [PATCH 20/39] fix: character error rate always selects a reference

---
 mteval/ns_cer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mteval/ns_cer.cc b/mteval/ns_cer.cc
index da6683b..61dd93c 100644
--- a/mteval/ns_cer.cc
+++ b/mteval/ns_cer.cc
@@ -19,11 +19,11 @@ void CERMetric::ComputeSufficientStatistics(const std::vector<WordID>& hyp,
                                             SufficientStats* out) const {
   out->fields.resize(kNUMFIELDS);
   std::string hyp_str(TD::GetString(hyp));
-  float best_score = hyp_str.size();
+  float best_score = 0;
   for (size_t i = 0; i < refs.size(); ++i) {
     std::string ref_str(TD::GetString(refs[i]));
     float score = cdec::LevenshteinDistance(hyp_str, ref_str);
-    if (score < best_score) {
+    if (i == 0 || score < best_score) {
       out->fields[kEDITDISTANCE] = score;
       out->fields[kCHARCOUNT] = ref_str.size();
       best_score = score;
-- 
2.43.0


From 507dca6fb99696bc14a304c871ba2efab591c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:24 +0000
Subject: [PATCH 21/39] fix: TERScore::PlusEquals accepts the scales it
 implements

---
 mteval/ter.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mteval/ter.cc b/mteval/ter.cc
index 19b90bb..b49e07c 100644
--- a/mteval/ter.cc
+++ b/mteval/ter.cc
@@ -438,9 +438,10 @@ class TERScore : public ScoreBase<TERScore> {
   void PlusEquals(const Score& delta, const float scale) {
     if (scale==1)
       stats += static_cast<const TERScore&>(delta).stats;
-    if (scale==-1)
+    else if (scale==-1)
       stats -= static_cast<const TERScore&>(delta).stats;
-    throw std::runtime_error("TERScore::PlusEquals with scale != +-1");
+    else
+      throw std::runtime_error("TERScore::PlusEquals with scale != +-1");
  }
   void PlusEquals(const Score& delta) {
     stats += static_cast<const TERScore&>(delta).stats;
-- 
2.43.0


From dbc01cd24466d16b39e2978a5936acdb44c8682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:25 +0000
Subject: [PATCH 22/39] fix: keep the sides of shared rules exchanged in
 linear-chain intersection

---
 decoder/hg_intersect.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/hg_intersect.cc b/decoder/hg_intersect.cc
index b9381d0..79a2b05 100644
--- a/decoder/hg_intersect.cc
+++ b/decoder/hg_intersect.cc
@@ -75,7 +75,7 @@ static bool FastLinearIntersect(const Lattice& target, Hypergraph* hg) {
         cov.insert(trg_index);
         swap(edge.prev_i_, edge.i_);
         swap(edge.prev_j_, edge.j_);
-        edge.rule_.swap(inv_rule);
+        edge.rule_ = inv_rule;
       }
     }
   }
-- 
2.43.0


From 8862ebfd20b60e458f1ca22043b11cc285eae2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:25 +0000
Subject: [PATCH 23/39] fix: count entries added to a growing hash table so
 that it grows

---
 klm/util/probing_hash_table.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klm/util/probing_hash_table.hh b/klm/util/probing_hash_table.hh
index ea228dd..c742aa0 100644
--- a/klm/util/probing_hash_table.hh
+++ b/klm/util/probing_hash_table.hh
@@ -278,6 +278,7 @@ template <class EntryT, class HashT, class EqualT = std::equal_to<typename Entry
     // Assumes that the key is unique.  Multiple insertions won't cause a failure, just inconsistent lookup.
     template <class T> MutableIterator Insert(const T &t) {
       DoubleIfNeeded();
+      ++backend_.entries_;
       return backend_.UncheckedInsert(t);
     }
 
-- 
2.43.0


From 06a6e8125b71d7b384a8a0cfdc5fc82f5938c8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:06 +0000
Subject: [PATCH 24/39] fix: trie models mark blanks extended after the last
 record of their order

---
 klm/lm/search_trie.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klm/lm/search_trie.cc b/klm/lm/search_trie.cc
index 7fc70f4..e9db467 100644
--- a/klm/lm/search_trie.cc
+++ b/klm/lm/search_trie.cc
@@ -103,8 +103,9 @@ class BackoffMessages {
       // We'll also use the same buffer to record messages to blanks that they extend.
       WordIndex *extend_out = reinterpret_cast<WordIndex*>(current_);
       const unsigned char order = (entry_size_ - sizeof(ProbPointer)) / sizeof(WordIndex);
-      for (reader.Rewind(); reader && (current_ != allocated_); ) {
-        switch (Compare(order, reader.Data(), current_)) {
+      for (reader.Rewind(); current_ != allocated_; ) {
+        // Messages that sort after the last record have nobody to receive them either.
+        switch (reader ? Compare(order, reader.Data(), current_) : 1) {
           case -1:
             ++reader;
             break;
-- 
2.43.0


From b5eaaa1cb32cb841b88110f8b9a8f1dd27202cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:17 +0000
Subject: [PATCH 25/39] fix: error surfaces start with the score of their first
 translation

---
 training/dpmert/ces.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/training/dpmert/ces.cc b/training/dpmert/ces.cc
index 157b2d1..8842cbc 100644
--- a/training/dpmert/ces.cc
+++ b/training/dpmert/ces.cc
@@ -56,7 +56,7 @@ void ComputeErrorSurface(const SegmentEvaluator& ss,
       seg.ConstructTranslation(&trans);
     //}
     //cerr << "Scoring: " << TD::GetString(trans) << endl;
-    if (trans == prev_trans) {
+    if (i > 0 && trans == prev_trans) {
       if (!minimize_segments) {
         ErrorSegment& out = (*env)[j];
         out.delta.fields.clear();
@@ -74,7 +74,7 @@ void ComputeErrorSurface(const SegmentEvaluator& ss,
       //string xx; delta.Encode(&xx); cerr << xx << endl;
       prev_trans.swap(trans);
       prev_score = score;
-      if ((!minimize_segments) || (!delta.IsAdditiveIdentity())) {
+      if (i == 0 || (!minimize_segments) || (!delta.IsAdditiveIdentity())) {
         ErrorSegment& out = (*env)[j];
         out.delta = delta;
         out.x = seg.x;
-- 
2.43.0


From b919ec0d407e80f6dedf3cb4680e42cad397640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:17 +0000
Subject: [PATCH 26/39] fix: error surfaces keep statistics longer than 255
 bytes

---
 training/dpmert/error_surface.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/training/dpmert/error_surface.cc b/training/dpmert/error_surface.cc
index 515b67f..b2acce8 100644
--- a/training/dpmert/error_surface.cc
+++ b/training/dpmert/error_surface.cc
@@ -16,7 +16,7 @@ void ErrorSurface::Serialize(std::string* out) const {
     string senc;
     cur.delta.Encode(&senc);
     assert(senc.size() < 1024);
-    unsigned char len = senc.size();
+    unsigned short len = senc.size();
     os.write((const char*)&cur.x, sizeof(cur.x));
     os.write((const char*)&len, sizeof(len));
     os.write((const char*)&senc[0], len);
@@ -31,7 +31,7 @@ void ErrorSurface::Deserialize(const std::string& in) {
   this->resize(segments);
   for (int i = 0; i < segments; ++i) {
     ErrorSegment& cur = (*this)[i];
-    unsigned char len;
+    unsigned short len;
     is.read((char*)&cur.x, sizeof(cur.x));
     is.read((char*)&len, sizeof(len));
     string senc(len, '\0'); assert(senc.size() == len);
-- 
2.43.0


From bc805dd9d51857e156a85ed57e546c0e8064a29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:48 +0000
Subject: [PATCH 27/39] fix: frequent patterns end inside the corpus

---
 extractor/precomputation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor/precomputation.cc b/extractor/precomputation.cc
index 3e58e2a..0cfdfd3 100644
--- a/extractor/precomputation.cc
+++ b/extractor/precomputation.cc
@@ -84,7 +84,7 @@ vector<vector<int>> Precomputation::FindMostFrequentPatterns(
     for (int len = lcp[i]; len < max_frequent_phrase_len; ++len) {
       int frequency = i - run_start[len];
       int start = suffix_array->GetSuffix(run_start[len]);
-      if (frequency >= min_frequency && start + len <= data.size()) {
+      if (frequency >= min_frequency && start + len < data.size()) {
         heap.push(make_pair(frequency, make_pair(start, len + 1)));
       }
       run_start[len] = i;
-- 
2.43.0


From e70ab4f099a2aafa88827acf8a2f1c9298e6360f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:48 +0000
Subject: [PATCH 28/39] fix: neighbours of a phrase are read only when the
 sentence has them

---
 extractor/rule_extractor.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/extractor/rule_extractor.cc b/extractor/rule_extractor.cc
index d918117..bbc01cd 100644
--- a/extractor/rule_extractor.cc
+++ b/extractor/rule_extractor.cc
@@ -237,14 +237,6 @@ void RuleExtractor::AddNonterminalExtremities(
     int extend_left, int extend_right) const {
   int source_x_low = source_back_low, source_x_high = source_back_high;
 
-  // Check if the extended source phrase will remain tight.
-  if (require_tight_phrases) {
-    if (source_low[source_back_low - extend_left] == -1 ||
-        source_low[source_back_high + extend_right - 1] == -1) {
-      return;
-    }
-  }
-
   // Check if we can add a nonterminal to the left.
   if (extend_left) {
     if (starts_with_x || source_back_low < min_gap_size) {
@@ -281,6 +273,14 @@ void RuleExtractor::AddNonterminalExtremities(
     }
   }
 
+  // Check if the extended source phrase will remain tight.
+  if (require_tight_phrases) {
+    if (source_low[source_back_low - extend_left] == -1 ||
+        source_low[source_back_high + extend_right - 1] == -1) {
+      return;
+    }
+  }
+
   // More length checks.
   int new_nonterminals = extend_left + extend_right;
   if (source_x_high - source_x_low > max_rule_span ||
-- 
2.43.0


From 79348bd17d143bedd04b3b6666546350ae50931f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:51 +0000
Subject: [PATCH 29/39] fix: variables keep their order when three or more are
 permuted

---
 extractor/rule_extractor_helper.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/extractor/rule_extractor_helper.cc b/extractor/rule_extractor_helper.cc
index d7e332d..0884acc 100644
--- a/extractor/rule_extractor_helper.cc
+++ b/extractor/rule_extractor_helper.cc
@@ -331,16 +331,19 @@ bool RuleExtractorHelper::GetGaps(
 
 vector<int> RuleExtractorHelper::GetGapOrder(
     const vector<pair<int, int>>& gaps) const {
-  vector<int> gap_order(gaps.size());
-  for (size_t i = 0; i < gap_order.size(); ++i) {
+  vector<int> gap_rank(gaps.size()), gap_order(gaps.size());
+  for (size_t i = 0; i < gap_rank.size(); ++i) {
     for (size_t j = 0; j < i; ++j) {
-      if (gaps[gap_order[j]] < gaps[i]) {
-        ++gap_order[i];
+      if (gaps[j] < gaps[i]) {
+        ++gap_rank[i];
       } else {
-        ++gap_order[j];
+        ++gap_rank[j];
       }
     }
   }
+  for (size_t i = 0; i < gap_rank.size(); ++i) {
+    gap_order[gap_rank[i]] = i;
+  }
   return gap_order;
 }
 
-- 
2.43.0


From 57fc4e122587935db464effd4427f516c09b8a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:28 +0000
Subject: [PATCH 30/39] fix: TTable::Increment sizes the table it counts in

---
 word-aligner/ttables.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/word-aligner/ttables.h b/word-aligner/ttables.h
index b996422..4e5f5e9 100644
--- a/word-aligner/ttables.h
+++ b/word-aligner/ttables.h
@@ -31,7 +31,7 @@ class TTable {
     }
   }
   inline void Increment(const int& e, const int& f) {
-    if (e >= static_cast<int>(ttable.size())) counts.resize(e + 1);
+    if (e >= static_cast<int>(counts.size())) counts.resize(e + 1);
     counts[e][f] += 1.0;
   }
   inline void Increment(const int& e, const int& f, double x) {
-- 
2.43.0


From 38444f6de2a313b3f7a1dd79e12c0cea4e6df4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:28 +0000
Subject: [PATCH 31/39] fix: pass the lengths to ComputeZ in order when
 computing its derivative

---
 word-aligner/da.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/word-aligner/da.h b/word-aligner/da.h
index c979b64..94ccacc 100644
--- a/word-aligner/da.h
+++ b/word-aligner/da.h
@@ -41,7 +41,7 @@ struct DiagonalAlignment {
   }
 
   static double ComputeDLogZ(const unsigned i, const unsigned m, const unsigned n, const double alpha) {
-    const double z = ComputeZ(i, n, m, alpha);
+    const double z = ComputeZ(i, m, n, alpha);
     const double split = double(i) * n / m;
     const unsigned floor = split;
     const unsigned ceil = floor + 1;
-- 
2.43.0


From 7f30b3f0eb80a57f29e45be6c158831260783df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:28 +0000
Subject: [PATCH 32/39] fix: count target positions from one in the empirical
 alignment feature

---
 word-aligner/fast_align.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/word-aligner/fast_align.cc b/word-aligner/fast_align.cc
index 73b7239..154f7d7 100644
--- a/word-aligner/fast_align.cc
+++ b/word-aligner/fast_align.cc
@@ -202,7 +202,7 @@ int main(int argc, char** argv) {
           for (unsigned i = 1; i <= src.size(); ++i) {
             const double p = probs[i] / sum;
             s2t.Increment(src[i-1], f_j, p);
-            emp_feat += DiagonalAlignment::Feature(j, i, trg.size(), src.size()) * p;
+            emp_feat += DiagonalAlignment::Feature(j + 1, i, trg.size(), src.size()) * p;
           }
         }
         likelihood += log(sum);
-- 
2.43.0


From 8f055d9c8559130a647048abb6f74fc5948d2783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:28 +0000
Subject: [PATCH 33/39] fix: no Viterbi links are looked up beyond those
 recorded

---
 word-aligner/fast_align.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/word-aligner/fast_align.cc b/word-aligner/fast_align.cc
index 154f7d7..f5ce691 100644
--- a/word-aligner/fast_align.cc
+++ b/word-aligner/fast_align.cc
@@ -309,6 +309,7 @@ int main(int argc, char** argv) {
 
   if (output_parameters) {
     WriteFile params_out(conf["output_parameters"].as<string>());
+    if (s2t_viterbi.size() < s2t.ttable.size()) s2t_viterbi.resize(s2t.ttable.size());
     for (unsigned eind = 1; eind < s2t.ttable.size(); ++eind) {
       const auto& cpd = s2t.ttable[eind];
       const TTable::Word2Double& vit = s2t_viterbi[eind];
-- 
2.43.0


From 21273164891c98ecb3ca925bd1cbda7aec76eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:23 +0000
Subject: [PATCH 34/39] fix: WordSet does not count variables as words outside
 the vocabulary

---
 decoder/ff_wordset.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/ff_wordset.cc b/decoder/ff_wordset.cc
index 9be6f2e..947383a 100644
--- a/decoder/ff_wordset.cc
+++ b/decoder/ff_wordset.cc
@@ -63,6 +63,7 @@ void WordSet::TraversalFeaturesImpl(const SentenceMetadata& /*smeta*/ ,
 				    void* /* context */) const {
   double addScore = 0.0;
   for(vector<WordID>::const_iterator it = edge.rule_->e_.begin(); it != edge.rule_->e_.end(); ++it) {
+    if (*it < 1) continue;  // variables are not words
     bool inVocab = (vocab_.find(*it) != vocab_.end());
     if(oovMode_ && !inVocab) {
       addScore += 1.0;
-- 
2.43.0


From b779ce8803730f78dbbd3754ce6370fa9f115dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:23 +0000
Subject: [PATCH 35/39] fix: NgramFeatures sees the start of the sentence at
 every order

---
 decoder/ff_ngrams.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ff_ngrams.cc b/decoder/ff_ngrams.cc
index a45bd27..f71629e 100644
--- a/decoder/ff_ngrams.cc
+++ b/decoder/ff_ngrams.cc
@@ -173,7 +173,7 @@ class NgramDetectorImpl {
 
   inline const State<5> BeginSentenceState() const {
     State<5> state(order_);
-    state.state[0] = kSOS_;
+    if (order_ > 1) state.state[order_ - 2] = kSOS_;  // the most recent word comes last
     return state;
   }
 
-- 
2.43.0


From 615b5eb3adb1845561932400716ec085b4f2ee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:23 +0000
Subject: [PATCH 36/39] fix: CMR2008ReorderingFeatures puts spans of more than
 15 words in the last bin

---
 decoder/ff_spans.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ff_spans.cc b/decoder/ff_spans.cc
index 0ccac69..a58b448 100644
--- a/decoder/ff_spans.cc
+++ b/decoder/ff_spans.cc
@@ -237,7 +237,7 @@ void CMR2008ReorderingFeatures::TraversalFeaturesImpl(const SentenceMetadata& sm
   assert(edge.i_ >= 0);
   assert(edge.j_ > edge.i_);
   const bool is_reordered = IsArity2RuleReordered(*edge.rule_);
-  const unsigned span_size = edge.j_ - edge.i_;
+  const unsigned span_size = min<unsigned>(edge.j_ - edge.i_, fids_.size() - 1);
   if (use_collapsed_features_) {
     assert(!"not impl"); // TODO
   } else {
-- 
2.43.0


From 248f36c9d0e9ec58ad956f203399b98d2be66c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:56 +0000
Subject: [PATCH 37/39] fix: a target word no source word generates is aligned
 to every source word

---
 decoder/aligner.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/aligner.cc b/decoder/aligner.cc
index fd64837..324b14f 100644
--- a/decoder/aligner.cc
+++ b/decoder/aligner.cc
@@ -292,7 +292,7 @@ void AlignerTools::WriteAlignment(const Lattice& src_lattice,
         //threshold *= prob_t(0.99);
       }
       for (int i = 0; i < src_size; ++i)
-        grid(i, j) = align(i+1, j) >= threshold;
+        grid(i, j) = align(i+1, j) >= threshold && align(i+1, j) != prob_t::Zero();
     }
     if (out == &cout && k_best < 2) {
       // TODO need to do some sort of verbose flag
-- 
2.43.0


From 7d9f2ca0137021597901c7825d878a3c13bdb955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:29 +0000
Subject: [PATCH 38/39] fix: the held-out pairs add nothing to the training
 gradient

---
 training/pro/mr_pro_reduce.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/pro/mr_pro_reduce.cc b/training/pro/mr_pro_reduce.cc
index a61a3a5..7df9b38 100644
--- a/training/pro/mr_pro_reduce.cc
+++ b/training/pro/mr_pro_reduce.cc
@@ -163,7 +163,7 @@ struct ProLoss {
     double cll = TrainingInference(x, training, g);
     tppl = 0;
     if (testing.size())
-      tppl = pow(2.0, TrainingInference(x, testing, g) / (log(2) * testing.size()));
+      tppl = pow(2.0, TrainingInference(x, testing) / (log(2) * testing.size()));
     double ppl = cll / log(2);
     ppl /= training.size();
     ppl = pow(2.0, ppl);
-- 
2.43.0


From 87f8a89f2a7c52805e011741cc9b1d4600e692f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:45 +0000
Subject: [PATCH 39/39] fix: Dedup finds equal candidates whatever the order of
 their features

---
 training/utils/candidate_set.cc | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/training/utils/candidate_set.cc b/training/utils/candidate_set.cc
index 36f5b27..766f915 100644
--- a/training/utils/candidate_set.cc
+++ b/training/utils/candidate_set.cc
@@ -35,18 +35,21 @@ struct ApproxVectorHasher {
     if ((r << 1) > MASK)
       t.i += MASK - r + 1;
     else
-      t.i &= (1ull - MASK);
+      t.i &= ~MASK;
     return t.f;
   }
   size_t operator()(const SparseVector<double>& x) const {
+    // features may come in any order, so what they contribute is summed
     size_t h = 0x573915839;
     for (SparseVector<double>::const_iterator it = x.begin(); it != x.end(); ++it) {
       UType t;
-      t.f = it->second;
+      t.f = round(it->second);
       if (t.f) {
+        size_t f = 0;
         size_t z = (t.i >> 32);
-        boost::hash_combine(h, it->first);
-        boost::hash_combine(h, z);
+        boost::hash_combine(f, it->first);
+        boost::hash_combine(f, z);
+        h += f;
       }
     }
     return h;
@@ -54,18 +57,17 @@ struct ApproxVectorHasher {
 };
 
 struct ApproxVectorEquals {
-  bool operator()(const SparseVector<double>& a, const SparseVector<double>& b) const {
-    SparseVector<double>::const_iterator bit = b.begin();
-    for (SparseVector<double>::const_iterator ait = a.begin(); ait != a.end(); ++ait) {
-      if (bit == b.end() ||
-          ait->first != bit->first ||
-          ApproxVectorHasher::round(ait->second) != ApproxVectorHasher::round(bit->second))
+  // the features of a are in b, where absent features are 0
+  static bool Within(const SparseVector<double>& a, const SparseVector<double>& b) {
+    for (SparseVector<double>::const_iterator it = a.begin(); it != a.end(); ++it) {
+      if (ApproxVectorHasher::round(it->second) != ApproxVectorHasher::round(b.value(it->first)))
         return false;
-      ++bit;
     }
-    if (bit != b.end()) return false;
     return true;
   }
+  bool operator()(const SparseVector<double>& a, const SparseVector<double>& b) const {
+    return Within(a, b) && Within(b, a);
+  }
 };
 
 struct CandidateCompare {
-- 
2.43.0

