# ---------------------------------------------------------------- decoder: hypergraphs
HGT = 'The unit tests build two or three fixed hypergraphs and compare a handful of numbers; they cannot range over forest shapes, repeated antecedents or weight orders.'
prop('D01', 'Inside, outside and expectation totals equal sums over derivations',
 'For every derivation forest, the inside total of a node is the sum over its derivations of the product of their edge weights, the outside total and edge marginals are the corresponding sums over the derivations of the goal (counting an edge as often as it is used), and expectations accumulate values weighted the same way. This holds in every semiring the decoder offers, including counting and Boolean reachability.',
 ['inputs'], 'all acyclic forests, all edge weights and values', HGT, ['decoder/inside_outside.h', 'decoder/hg.cc'],
 [('inside recursion', 'decoder/inside_outside.h: Inside'), ('outside recursion', 'decoder/inside_outside.h: Outside'), ('expectation pass', 'decoder/inside_outside.h: InsideOutside')], ['Inside()', 'Outside()', 'InsideOutside()'],
 'all forests with 3 nodes/4 edges (arity<=2) and six larger shapes; integer weights symbolic')
prop('D02', 'Viterbi returns a best derivation, with its own yield, path and features',
 'For every derivation forest the reported best score is attained by a derivation and no derivation scores higher. The reported translation, source side, feature vector, tree and edge path all belong to one such best derivation.',
 ['inputs'], 'all acyclic forests and all edge weights', HGT, ['decoder/viterbi.h', 'decoder/viterbi.cc'],
 [('Viterbi recursion', 'decoder/viterbi.h: Viterbi'), ('traversals', 'decoder/viterbi.h: ESentenceTraversal, FeatureVectorTraversal, ViterbiPathTraversal')], ['Viterbi()', 'ViterbiESentence()', 'ViterbiFeatures()'],
 'all forests with 3 nodes/4 edges and six larger shapes; log weights symbolic on a half-integer grid')
prop('D03', 'Lazy k-best extraction is complete, sorted and free of repeats',
 'For every derivation forest and every k, the k-best list contains the k highest-scoring derivations (all of them if there are fewer), in non-increasing order of score, each once, each with its own score, features and yield. With the unique filter, it contains one item for each of the best k distinct yields, carrying the score of that yield\'s best derivation.',
 ['inputs'], 'all acyclic forests, all edge weights, all k', HGT, ['decoder/kbest.h'],
 [('lazy k-th best', 'decoder/kbest.h: LazyKthBest, LazyNext'), ('candidate heap and duplicate set', 'decoder/kbest.h: GetCandidates')], ['KBestDerivations::LazyKthBest'],
 'all forests with 3 nodes/4 edges, k<=4, and six larger shapes; unique lists on 2 nodes/4 edges, k<=3')
prop('D04', 'Pruning keeps the best derivation and exactly what the threshold admits',
 'Beam pruning keeps exactly the edges that take part in a derivation within the beam of the best one; density pruning keeps the highest-ranked edges within its allowance and everything tied with the best. The best derivation and the weights of the surviving edges are unchanged, explicitly preserved edges stay, and every remaining node can still be derived; pruning by posterior probability obeys the same rule on posteriors.',
 ['inputs', 'configurations'], 'all forests, all weights, all beams and densities', HGT, ['decoder/hg.cc', 'decoder/inside_outside.h'],
 [('margin pruning', 'decoder/hg.cc: PruneInsideOutside, MarginPrune'), ('edge removal with reachability', 'decoder/hg.cc: PruneEdges')], ['Hypergraph::PruneInsideOutside', 'Hypergraph::BeamPruneInsideOutside', 'Hypergraph::DensityPruneInsideOutside'],
 'all forests with 3 nodes/4 edges and six larger shapes; beam weights symbolic, density and posterior weights forked')
prop('D05', 'Restructuring a forest changes no derivation, weight or feature it should keep',
 'Topological sorting, edge removal, edge subsets, unions and weight pushing produce a well-formed forest whose derivations are exactly the ones asked for: all of them, those avoiding the removed edges, those over the kept edges, or those of both forests. Surviving edges keep their weights, features and spans; weight pushing keeps the (relative) weight of every derivation.',
 ['inputs', 'histories'], 'all forests, all node orders, all edge masks', HGT, ['decoder/hg.cc', 'decoder/hg_union.cc', 'decoder/hg.h'],
 [('topological sort', 'decoder/hg.cc: TopologicallySortNodesAndEdges'), ('subsets', 'decoder/hg.cc: CreateEdgeSubset, CreateNodeSubset'), ('unions', 'decoder/hg_union.cc: HG::Union; decoder/hg.cc: Hypergraph::Union'), ('weight pushing', 'decoder/hg.cc: PushWeightsToGoal, PushViterbiWeightsToGoal')], ['Hypergraph', 'HG::Union'],
 'six shapes and all forests with 2 nodes/3 edges, every permutation/mask/split; weights symbolic')
# ---------------------------------------------------------------- utilities
UT_ = 'The unit tests run a handful of fixed operation sequences and strings; boundary sizes, operation orders and odd bytes are not covered.'
prop('U01', 'Sparse vectors behave as index-to-value maps under every operation',
 'A sparse vector holds exactly the entries that were set, whatever its size and whatever sequence of set, add, erase, scale, sum, difference, scaled sum, swap, copy and clear led there. Reads of other indices give zero, iteration visits each entry once, dot products equal the sum over common indices, equality holds exactly when the entries agree, and copies are independent.',
 ['inputs','histories'], 'all vectors and operation sequences', UT_, ['utils/fast_sparse_vector.h','utils/sparse_vector.h'],
 [('inline/out-of-line storage','utils/fast_sparse_vector.h: swap_local_rbmap'),('element access','utils/fast_sparse_vector.h: get_or_create, erase'),('dot products','utils/fast_sparse_vector.h: dot')], ['SparseVector'],
 'sequences of two operations from sizes 1, 7, 8 (thorough: three); values symbolic')
prop('U02', 'Small vectors behave as sequences under every operation',
 'A small vector holds exactly the elements that were stored, in order, whatever its size and whatever sequence of push, pop, resize, erase, assign, swap, compact, copy and clear led there. Equality and hashing depend on the elements only, and copies are independent.',
 ['inputs','histories'], 'all element sequences and operation histories', UT_, ['utils/small_vector.h'],
 [('in-line to heap transitions','utils/small_vector.h: copy_vals_to_ptr, ptr_to_small, ensure_capacity'),('assignment','utils/small_vector.h: operator=')], ['SmallVectorInt'],
 'two operations from sizes 0..5 (thorough: three), values symbolic')
prop('U03', 'Words and ids correspond one to one, and lines split into their words',
 'Converting a word to an id and back yields the word; different words have different ids; ids never change as the dictionary grows; a frozen dictionary adds nothing and maps unknown words to zero. Converting a line yields the ids of its blank-separated words in order, and converting ids back yields those words.',
 ['inputs','histories'], 'all words and lines', UT_, ['utils/dict.h','utils/dict.cc','utils/fdict.h','utils/tdict.cc','utils/stringlib.h'],
 [('word to id','utils/dict.h: Convert'),('line splitting','utils/dict.h: ConvertWhitespaceDelimitedLine; utils/stringlib.h: VisitTokens')], ['Dict','FD','TD'],
 'word pairs over four letters, lines of up to five characters from {a,b,space,tab}, dictionaries of up to 1200 words')
prop('U04', 'Log-domain numbers obey the arithmetic and order of the reals they represent',
 'Sums, differences, products, quotients, powers, negation and absolute value of log-domain numbers represent the result on the real numbers, signs included; zero and one are neutral; comparison and equality are those of the reals.',
 ['inputs'], 'all pairs of representable numbers', UT_, ['utils/logval.h','utils/prob.h'],
 [('log-domain sum','utils/logval.h: operator+='),('ordering','utils/logval.h: operator<, lt, gt')], ['prob_t'],
 'products and order: three symbolic log values on a grid, all signs; sums: 121 pairs of magnitudes 0..1e300 (forked, tolerance 1e-9)')
prop('U05', 'Base64 and feature-vector encodings decode to what was encoded',
 'Encoding any bytes in base64 gives the standard text, and decoding it gives the bytes back. Encoded feature vectors decode to the same features and bit-identical values, for every number and length of feature names up to 255, and text with characters outside the alphabet is rejected.',
 ['inputs'], 'all byte strings and feature vectors', UT_, ['utils/b64tools.cc','utils/b64featvector.cc','utils/sparse_vector.cc'],
 [('block encoding','utils/b64tools.cc: encodeblock, decodeblock'),('vector codecs','utils/b64featvector.cc; utils/sparse_vector.cc: B64::Encode, B64::Decode')], ['B64::b64encode','B64::b64decode','EncodeFeatureVector','B64::Encode'],
 '1..4 symbolic bytes (thorough: 8); one or two features, six name lengths, one value byte symbolic')
prop('U06', 'Weights and corpora read from files are exactly what was written',
 'Weights written to a file or string read back exactly, zero weights are hidden only when asked, and every accepted layout (comments, blank lines, separators) is read. Corpus shards together hold every line exactly once, with words in order and the full vocabulary.',
 ['inputs','configurations'], 'all weight vectors, layouts, corpora and shard counts', UT_, ['utils/weights.cc','utils/corpus_tools.cc','utils/filelib.cc'],
 [('weights reader','utils/weights.cc: InitFromFile'),('weights writer','utils/weights.cc: WriteToFile, GetString'),('sharded reading','utils/corpus_tools.cc: ReadFromFile')], ['Weights','CorpusTools'],
 'three features over ten doubles including extremes; layouts of two lines; corpora of up to four lines, three shards (forked)')
prop('U07', 'Alignments read back as written and symmetrise as documented',
 'Reading an alignment line yields exactly the listed links and writing it yields a line that reads back. Inversion, intersection, union and the f-measure counts are exact; grow-diag, -final and -final-and lie between intersection and union, add only links their rule allows, and stop only when no allowed link is left.',
 ['inputs'], 'all pairs of alignments', UT_, ['utils/alignment_io.cc','utils/atools.cc'],
 [('parsing','utils/alignment_io.cc: ReadPharaohAlignmentGrid'),('growing','utils/atools.cc: Grow, KoehnAligned, IsNeitherAligned')], ['atools commands','AlignmentIO'],
 'all pairs of alignments on 2x3/2x2, 2x2/2x2 and 1x3/3x1 words; lines of up to two links')
prop('U08', 'Text splitting, trimming, input-line and segment-tag parsing are exact',
 'Tokens are exactly the stretches between delimiters, trimming removes only outer blanks, an input line divides at its separator into source and reference even when one is empty, segment tags give each attribute its value however it is quoted or spaced, and the sentence is the text between the tags.',
 ['inputs'], 'all byte strings', UT_, ['utils/stringlib.h','utils/stringlib.cc'],
 [('splitting','utils/stringlib.h: Tokenize, SplitOnWhitespace, TokenizeMultisep'),('segment tags','utils/stringlib.cc: ProcessAndStripSGML, ParseTranslatorInput')], ['Tokenize','Trim','ProcessAndStripSGML','ParseTranslatorInput'],
 'lines of up to four symbolic bytes; tags with up to two attributes and symbolic values')
prop('U09', 'Index remapping and two-dimensional arrays keep each element in its place',
 'Removing marked elements keeps the others in order, renumbers them consecutively and translates lists of indices consistently. Cells of a two-dimensional array are independent, and copies, fills and column iteration see exactly the stored values.',
 ['inputs'], 'all masks and contents', UT_, ['utils/indices_after.h','utils/array2d.h'],
 [('remapping','utils/indices_after.h: init, do_moves, reindex'),('cell addressing','utils/array2d.h: offset')], ['indices_after','Array2D'],
 'every mask of up to five elements, arrays up to 3x3, values symbolic')
prop('U10', 'Samplers choose each outcome in proportion to its weight',
 'A draw selects the outcome whose share of the total contains it, for any weights; annealing applies the power to every weight; an alias table redistributes exactly the given distribution, and impossible outcomes are not drawn.',
 ['inputs'], 'all weights and all draws', UT_, ['utils/sampler.h','utils/alias_sampler.h'],
 [('cumulative selection','utils/sampler.h: SelectSample'),('alias tables','utils/alias_sampler.h: Init, Draw')], ['RandomNumberGenerator::SelectSample','AliasSampler'],
 'two to four symbolic integer weights, 256 draws; every distribution on four outcomes in 8192ths')
prop('D07', 'The parse forest holds exactly the derivations the grammar allows',
 'Parsing a sentence or lattice under any synchronous grammar succeeds exactly when the goal category derives the whole input within the span limit, and the forest then holds every derivation once: each rule over the spans it covers, with variables filled in source order. Each edge carries its rule\'s features plus those of the lattice arcs it consumes, and glue rules and unary rules obey the same law.',
 ['inputs', 'programs'], 'all grammars and all inputs', 'The system tests decode two small models and compare final scores; a missing or repeated derivation in a forest usually changes nothing they look at.', ['decoder/bottom_up_parser.cc', 'decoder/scfg_translator.cc', 'decoder/grammar.cc', 'decoder/lattice.cc'],
 [('chart filling', 'decoder/bottom_up_parser.cc: ActiveChart, PassiveChart::Parse'), ('rule completion', 'decoder/bottom_up_parser.cc: ApplyRule, ApplyUnaryRules'), ('rule trie', 'decoder/grammar.cc: TextGrammar, GlueGrammar, PassThroughGrammar')], ['ExhaustiveBottomUpParser::Parse'],
 'every sub-grammar of an eleven-rule pool, sentences of up to three words (thorough: four), lattices with two extra arcs; rule scores symbolic')
prop('D06', 'Saved forests read back unchanged, and printed ones mean the same',
 'Writing a derivation forest in binary and reading it back gives the same nodes, categories, edges, spans, rules and bit-identical feature values, also when several forests share a file. The grammar printed from a forest derives exactly the forest\'s translations, with the same features.',
 ['inputs'], 'all forests, rules and feature values', 'The tests read one stored forest back; rules with three reordered variables, unset categories and extreme values never occur in it.', ['decoder/hg.h', 'decoder/hg_io.cc', 'decoder/trule.h', 'utils/fast_sparse_vector.h'],
 [('graph archive', 'decoder/hg.h: Hypergraph::save/load'), ('rule archive', 'decoder/trule.h: TRule::save/load'), ('printed grammar', 'decoder/hg_io.cc: WriteAsCFG')], ['HypergraphIO::WriteToBinary', 'HypergraphIO::ReadFromBinary', 'HypergraphIO::WriteAsCFG'],
 'six larger shapes and all forests with 3 nodes/3 edges; feature values symbolic 64-bit doubles, hashes and spans symbolic; rules of up to three variables in every order')
prop('D10', 'Lattices read from text have exactly the arcs described',
 'Reading a lattice in Python notation gives exactly the columns, words (escapes included), spans and features described, in either feature notation; a plain sentence gives the chain of its words. Distances between positions are the fewest arcs between them, and written lattices and forests read back with the same arcs, words and costs.',
 ['inputs'], 'all lattices and sentences', 'The tests read three fixed lattices.', ['decoder/hg_io.cc', 'decoder/lattice.cc'],
 [('lattice reader', 'decoder/hg_io.cc: ReadFromPLF, PLFtoLattice, getEscapedString'), ('lattice writer', 'decoder/hg_io.cc: AsPLF'), ('shortest paths', 'decoder/lattice.cc: ComputeDistances')], ['LatticeTools::ConvertTextOrPLF', 'HypergraphIO::AsPLF'],
 'lattices of up to three columns, two arcs each of any span; words of up to two characters from nine, six costs; sentences of up to four characters')

prop('D08', 'Rules and grammars mean what their text says',
 'A rule read from text has exactly the categories, words, variable order, features and alignments written, in either variable notation, and printing it gives text that reads back the same. Applying a rule to its antecedents puts each one exactly where its variable stands, on either side. A grammar holds exactly the rules of its text (the last line with or without a newline, whatever was read before), findable under their source sides; indented rules belong to the coarse rule above them.',
 ['inputs', 'histories'], 'all rules, antecedents and grammar texts', 'The tests read a handful of rules; variable orders, missing final newlines and level structure are not sampled.', ['decoder/trule.cc', 'decoder/trule.h', 'decoder/rule_lexer.ll', 'decoder/grammar.cc'],
 [('rule text', 'decoder/rule_lexer.ll, decoder/trule.cc: ReadFromString, AsString'), ('substitution', 'decoder/trule.h: ESubstitute, FSubstitute'), ('grammar trie', 'decoder/grammar.cc: TextGrammar::AddRule, ReadFromFile')], ['TRule::AsString', 'TRule::ESubstitute', 'TextGrammar::GetRoot'],
 'rules of up to three source symbols with every variable order, up to three features; substitution with symbolic words, arity up to 3; grammars of two lines from four')
prop('D12', 'Tree fragments read, print and walk in the order of their text',
 'A bracketed tree has one production for every bracket, with the labels, words and open sites written and spans equal to the words covered; it prints back as written and counts its words and open sites. Depth-first and breadth-first walks visit each symbol once in the order the tree defines, and leaving out a subtree turns it into an open site without losing what follows.',
 ['inputs'], 'all trees', 'The tests print a few fixed trees.', ['decoder/tree_fragment.cc', 'decoder/tree_fragment.h'],
 [('reader', 'decoder/tree_fragment.cc: TreeFragment::ParseRec, SetupSpansRec'), ('walks', 'decoder/tree_fragment.h: DepthFirstIterator, BreadthFirstIterator')], ['operator<<(TreeFragment)', 'TreeFragment::begin', 'TreeFragment::bfs_begin'],
 'trees of up to four brackets, words and open sites; symbols arbitrary 28-bit numbers in the walks')
prop('M01', 'BLEU counts clipped matches and scores them by its definition',
 'For every hypothesis and references, the BLEU statistics are the n-gram matches clipped at the largest count in one reference, the n-gram totals, and the hypothesis and effective reference lengths of the chosen variant (closest, shortest or average). They do not depend on earlier evaluations, add and subtract over a corpus, survive being written and read, and are scored as the geometric mean of precisions times the brevity penalty; both scoring libraries agree.',
 ['inputs', 'histories'], 'all hypotheses and references', 'The tests score two fixed sentences; repeated n-grams shared between references, ties in length and empty hypotheses are not covered.', ['mteval/ns.cc', 'mteval/ns.h', 'mteval/scorer.cc'],
 [('counting', 'mteval/ns.cc: BleuSegmentEvaluator::Evaluate, ComputeNgramStats'), ('score', 'mteval/ns.cc: BleuMetric::ComputeBreakdown'), ('document scorer', 'mteval/scorer.cc: BLEUScorerBase, BLEUScore')], ['SegmentEvaluator::Evaluate', 'EvaluationMetric::ComputeScore', 'ScoreCandidate'],
 'four (thorough: five) symbolic words split over a hypothesis and up to two references; ten fixed sentences for scores and sums')
prop('M02', 'Word, character and translation error rates count the fewest edits',
 'The word and character error rates count the fewest insertions, deletions and substitutions to the closest reference, relative to its length. The translation error rate never counts more than the plain edits and is zero only for the reference itself; the moves and edits it counts do turn the hypothesis into the reference, and it takes the best reference over the average length. Counts do not depend on earlier evaluations and add up over a corpus; both scoring libraries agree.',
 ['inputs', 'histories'], 'all hypotheses and references', 'The tests score two fixed sentences with one metric each.', ['mteval/levenshtein.h', 'mteval/ns_cer.cc', 'mteval/ns_ter.cc', 'mteval/ns_ter_impl.cc', 'mteval/ns_wer.cc', 'mteval/ter.cc'],
 [('edit distance', 'mteval/levenshtein.h: LevenshteinDistance'), ('moves', 'mteval/ns_ter_impl.cc: TERScorerImpl::CalculateTER'), ('counts', 'mteval/ns_wer.cc, ns_cer.cc, ns_ter.cc: ComputeSufficientStatistics')], ['SegmentEvaluator::Evaluate', 'EvaluationMetric::ComputeScore', 'ScoreCandidate'],
 'three symbolic words per sentence for the edit distance; hypotheses and references of up to three words from three for moves')
prop('M03', 'Combined, alignment and kernel scores follow from their parts',
 'A combined metric keeps the statistics of its parts side by side and scores every segment and corpus as the weighted sum of the parts\' own scores. The alignment error rate is one minus the balanced F of the links, over a sentence or a corpus. The string kernel score is the normalised weight of the common (gapped) subsequences of up to four words.',
 ['inputs'], 'all hypotheses, references and weights', 'The tests evaluate one fixed pair per metric.', ['mteval/ns_comb.cc', 'mteval/ns_ssk.cc', 'mteval/aer_scorer.cc'],
 [('mixture', 'mteval/ns_comb.cc: CombinationMetric'), ('alignment error', 'mteval/aer_scorer.cc: AERScore, AERScorer'), ('kernel', 'mteval/ns_ssk.cc: SSKMetric')], ['EvaluationMetric::ComputeScore', 'ScoreP::ComputeScore'],
 'three mixtures, sentences of up to four words; every pair of link sets over five links; kernel of four words from two')
prop('D09', 'Rescoring keeps the forest and gives every derivation its model score',
 'Applying feature functions to a forest yields a forest whose derivations are derivations of the original, each at most once, with the rule features they had, and whose summed features are what the functions score on the whole derivation, boundary scores included once. Two derivations share a node exactly when their states agree. Exhaustive rescoring keeps every derivation; cube pruning keeps at most the pop limit of edges per node, and when the functions ignore each other finds the best one.',
 ['inputs'], 'all forests, feature functions and pop limits', 'Tests rescore a few recorded forests and look at best scores; state merging, arity-three rules, state layout of several functions and tiny pop limits are not sampled.', ['decoder/apply_models.cc', 'decoder/ffset.cc', 'decoder/ff.cc', 'decoder/ff_basic.cc'],
 [('rescoring', 'decoder/apply_models.cc: CubePruningRescorer, NoPruningRescorer'), ('state layout', 'decoder/ffset.cc: ModelSet::AddFeaturesToEdge, AddFinalFeatures')], ['ApplyModelSet', 'Hypergraph::edges_'],
 'six shapes of up to five nodes with a goal rule; rules over three words, weights forked on a grid; a bigram model, a length model and the built-in word penalty and arity features; full, cube, fast and guided cube pruning with pop limits 1..3')
prop('D11', 'Restricting a forest to a translation keeps exactly what produces it',
 'Intersecting a forest with a reference, a string or a lattice, succeeds exactly when some derivation produces it, and the result has exactly the derivations that do, each once per path, with source and target exchanged, its features and spans kept. The short cut for chains of word translations gives the same forest; rules shared between edges keep their meaning.',
 ['inputs'], 'all forests and targets', 'The tests do not constrain a forest to a reference except inside one training run.', ['decoder/hg_intersect.cc', 'decoder/hg_intersect.h'],
 [('general case', 'decoder/hg_intersect.cc: HG::Intersect'), ('linear chains', 'decoder/hg_intersect.cc: FastLinearIntersect')], ['HG::Intersect'],
 'six shapes and every acyclic graph of 2 nodes and 3 edges plus a goal; targets of up to three derivations and lattices with one extra word; chains of up to three positions with shared rules; feature values symbolic')
prop('K01', 'Bit-packed entries of the language model read back as written',
 'Integers, log probabilities, back-off weights, words and successor pointers packed side by side at any bit offset read back exactly and disturb no neighbour; widths are the smallest that hold the largest value; compressed pointer tables give the same ranges as plain ones, and after reloading; a word is found in a node exactly when stored there; quantised values become the nearest centre, and zero back-offs stay zero with their sign.',
 ['inputs'], 'all values, offsets and widths', 'The tests pack a few patterns; every offset, width and neighbour cannot be sampled.', ['klm/util/bit_packing.hh', 'klm/util/bit_packing.cc', 'klm/lm/bhiksha.hh', 'klm/lm/bhiksha.cc', 'klm/lm/trie.cc', 'klm/lm/quantize.hh', 'klm/lm/quantize.cc'],
 [('packing', 'klm/util/bit_packing.hh: WriteInt57, WriteInt25, WriteNonPositiveFloat31, RequiredBits'), ('pointers', 'klm/lm/bhiksha.hh: ArrayBhiksha::WriteNext, ReadNext'), ('trie nodes', 'klm/lm/trie.cc: BitPackedLongest::Find'), ('quantisation', 'klm/lm/quantize.hh: SeparatelyQuantize::Bins::Encode')], ['ReadInt57', 'ReadNext', 'LongestPointer::Prob'],
 'values, words and numbers symbolic at every offset in a byte and representative widths; pointer tables of up to 2 entries (4 thorough) with five table settings; nodes of up to 2 words from 8; quantisation of up to 2 values')
prop('K02', 'Tables and searches of the language model find exactly what was stored',
 'A probing hash table, fixed or growing, finds exactly the keys inserted with their latest values, through doubling and clearing, reports whether a key was new and its size, and refuses an entry exactly when full. Binary and interpolation searches of a sorted range find a key exactly when present. Joint sorting orders the keys and keeps each with its value. Intersecting sorted sets gives exactly the common elements in order.',
 ['inputs', 'histories'], 'all histories of insertions and lookups, all sorted ranges', 'The tests insert fixed or random keys; wrap-around while doubling, full tables and duplicate boundary keys are not exhausted.', ['klm/util/probing_hash_table.hh', 'klm/util/sorted_uniform.hh', 'klm/util/joint_sort.hh', 'klm/util/proxy_iterator.hh', 'klm/util/multi_intersection.hh'],
 [('hash tables', 'klm/util/probing_hash_table.hh: ProbingHashTable, AutoProbing'), ('searches', 'klm/util/sorted_uniform.hh'), ('sorting', 'klm/util/joint_sort.hh: JointSort'), ('intersection', 'klm/util/multi_intersection.hh')], ['AutoProbing::Find', 'SortedUniformFind', 'JointSort', 'AllIntersection'],
 'keys symbolic; up to three operations on a growing table, capacities 2..3 doubled once; ranges, pairs and sets of up to four')
prop('K03', 'The language model answers by the back-off definition of its file',
 'For every ARPA file and every word sequence, from the start of a sentence or from nothing, the score of a word is the probability of the longest n-gram in the file ending there plus the back-offs of the longer contexts, unknown words scored as unknown. Scoring from the words alone or from a state gives the same score and state. This holds for the hashed, trie, array trie and quantised models, built in memory or saved and loaded, and for files whose lower-order n-grams were pruned.',
 ['inputs', 'programs'], 'all models in ARPA format and all word sequences', 'The tests query one small model; pruned suffixes, zero and positive back-offs, and other combinations of n-grams are not sampled.', ['klm/lm/model.cc', 'klm/lm/search_hashed.cc', 'klm/lm/search_trie.cc', 'klm/lm/trie_sort.cc', 'klm/lm/read_arpa.cc', 'klm/lm/vocab.cc', 'klm/lm/binary_format.cc'],
 [('queries', 'klm/lm/model.cc: GenericModel::FullScore, ScoreExceptBackoff, FullScoreForgotState, GetState'), ('hashed building', 'klm/lm/search_hashed.cc: AdjustLower, MarkLower, ReadNGrams'), ('trie building', 'klm/lm/search_trie.cc: BackoffMessages, SRISucks, WriteEntries'), ('files', 'klm/lm/read_arpa.cc, binary_format.cc')], ['Model::FullScore', 'Model::FullScoreForgotState', 'Model::GetState'],
 'orders 3 and 4 over three words, any subset of up to five bigrams, four trigrams, three 4-grams; numbers symbolic for the hashed model and distinct constants for the others; sequences of three words (thorough: five)')
prop('K04', 'Spans scored by the language model in pieces score as a whole',
 'Putting a span of words together from words and smaller spans, in any order, gives the same boundary state and the same score as scoring its words from left to right without context; adding the start and end of the sentence then gives exactly the sum of the word scores of the sentence. Equal states compare and hash equal.',
 ['inputs', 'schedules'], 'all models, word sequences and ways to put them together', 'One test compares a few fixed bracketings.', ['klm/lm/left.hh', 'klm/lm/state.hh', 'klm/lm/model.cc', 'klm/lm/partial.hh'],
 [('span scoring', 'klm/lm/left.hh: RuleScore::Terminal, NonTerminal, BeginNonTerminal, Finish'), ('extending left', 'klm/lm/model.cc: ExtendLeft'), ('state', 'klm/lm/state.hh: ChartState')], ['RuleScore::Finish', 'ChartState'],
 'spans of up to three words (order 3) and four (order 4), hashed models with symbolic numbers, tries and rest-cost models with constants; every seventh mix or denser')
prop('K05', 'The decoder\'s language model feature sums to the score of the translation',
 'Over any derivation, from rules with words and variables in any order, the language model feature adds up to the score of the translation with its sentence boundaries, whether they are added at the end or written in the rules; a missing boundary costs exactly 100. Unknown words are counted once each. With word classes the model sees the class of each word and the emission scores add up. Derivations of the same words have the same state.',
 ['inputs'], 'all models, rules and derivations', 'System tests compare the best score of one model; other derivation shapes, class maps and explicit boundaries are not sampled.', ['decoder/ff_klm.cc', 'decoder/ff_klm.h', 'klm/lm/left.hh'],
 [('rule scores', 'decoder/ff_klm.cc: LookupWords, BoundaryRuleScore'), ('end of sentence', 'decoder/ff_klm.cc: FinalTraversalCost'), ('classes', 'decoder/ff_klm.cc: LoadWordClasses, ClassifyWordIfNecessary')], ['FeatureFunction::TraversalFeatures', 'FeatureFunction::FinalTraversalFeatures'],
 'orders 2 and 3, subsets of four bigrams and two trigrams with symbolic numbers; sentences of up to three words from three (thorough: four); every sixth or tenth derivation')

prop('T01', 'Line search finds the best point for the forests of all sentences',
 'Along a search line, the envelope computed from a forest is exactly the upper envelope of its derivations: its segments are derivations with their translations, they join where neighbours meet, and nothing lies above. The error surface adds up, at every point, to the statistics of the translation that wins there, from the first segment on. The search over all surfaces returns a point whose score is the reported one and the best of the line. Surfaces read back as written.',
 ['inputs'], 'all forests, directions, metrics statistics and sets of surfaces', 'The tests build a few envelopes by hand and run one line search.', ['training/dpmert/mert_geometry.cc', 'training/dpmert/ces.cc', 'training/dpmert/line_optimizer.cc', 'training/dpmert/error_surface.cc'],
 [('envelope', 'training/dpmert/mert_geometry.cc: ConvexHull operator+=, operator*=, Sort'), ('error surface', 'training/dpmert/ces.cc: ComputeErrorSurface'), ('search', 'training/dpmert/line_optimizer.cc: LineOptimize'), ('exchange', 'training/dpmert/error_surface.cc: Serialize, Deserialize')], ['ConvexHull::GetSortedSegs', 'ErrorSurface', 'LineOptimizer::LineOptimize'],
 'six forest shapes and every acyclic graph of 2 nodes and 3 edges, slopes within two of each other so that crossings are exact, intercepts and statistics symbolic; up to two surfaces of three steps; up to 70 statistics')
prop('T02', 'Training losses and gradients are as defined; candidates are kept once',
 'For sets of candidate translations the risk is the loss expected under the model, the entropy that of its distribution, and the training objective risk less scaled entropy summed over sentences; the ranking loss is the regularised log loss of the training pairs, with held-out pairs only measured. Every gradient is the derivative of its value. A candidate set holds each translation of a k-best list with its features and statistics exactly once, however often lists are added, and reads back as written.',
 ['inputs', 'histories'], 'all candidate sets, ranked pairs and weights', 'The tests check one optimiser on fixed functions and none of these losses.', ['training/utils/risk.cc', 'training/utils/entropy.cc', 'training/utils/candidate_set.cc', 'training/minrisk/minrisk_optimize.cc', 'training/pro/mr_pro_reduce.cc'],
 [('risk', 'training/utils/risk.cc: CandidateSetRisk::operator()'), ('entropy', 'training/utils/entropy.cc: CandidateSetEntropy::operator()'), ('ranking', 'training/pro/mr_pro_reduce.cc: ProLoss'), ('candidates', 'training/utils/candidate_set.cc: Dedup, AddKBestCandidates')], ['CandidateSetRisk', 'CandidateSetEntropy', 'CandidateSet', 'what the optimisers are given'],
 'up to three candidates of one sentence and two of another, up to two ranked pairs and one held out, two features; candidate sets of six forests with up to ten features')
prop('E01', 'Phrases, with or without gaps, are found exactly where they occur',
 'The suffix array of a corpus lists every suffix once in order, whatever pivots sorting picks; common-prefix lengths are right; a contiguous phrase gets exactly the range of suffixes that start with it. For an input sentence the extractor looks up each pattern of its words and gaps, within the limits on span, gaps, symbols and variables, at most once, finds every one that occurs in the corpus, and knows exactly its occurrences inside sentences, precomputed collocations or not.',
 ['inputs', 'schedules'], 'all corpora, sentences, limits and random pivots', 'The tests index one or two sentences with fixed pivots and mocked collocations.', ['extractor/suffix_array.cc', 'extractor/matchings_finder.cc', 'extractor/fast_intersector.cc', 'extractor/precomputation.cc', 'extractor/rule_factory.cc', 'extractor/data_array.cc'],
 [('index', 'extractor/suffix_array.cc: SuffixArray'), ('gaps', 'extractor/fast_intersector.cc: Intersect'), ('collocations', 'extractor/precomputation.cc: Precomputation'), ('patterns', 'extractor/rule_factory.cc: GetGrammar, ExtendState')], ['SuffixArray::Lookup', 'RuleExtractor::ExtractRules (its arguments)'],
 'texts of up to 7 tokens over two words and sentence ends (thorough: 9, or three words); sentences of up to 5 words with one unknown; four sets of limits, four settings of the collocation index')
prop('E02', 'Extracted rules are exactly those the word alignment licenses',
 'Every rule extracted comes from a span pair that no link leaves, with variables over smaller such pairs that do not touch in the source, within the limits on span, gaps, symbols and variables, with aligned edges when phrases must be tight; its internal links are exactly the links between its words. Under tight phrases every such phrase pair and every such rule whose variables are inside is extracted, in any order of the variables on the target side. No rule is reported twice.',
 ['inputs'], 'all alignments and limits', 'The tests mock the parts and extract from a few fixed alignments.', ['extractor/rule_extractor.cc', 'extractor/rule_extractor_helper.cc', 'extractor/target_phrase_extractor.cc', 'extractor/phrase_builder.cc', 'extractor/rule_factory.cc'],
 [('closing spans', 'extractor/rule_extractor_helper.cc: FindFixPoint, GetGaps, GetGapOrder'), ('variables at the edges', 'extractor/rule_extractor.cc: AddNonterminalExtremities'), ('target side', 'extractor/target_phrase_extractor.cc: ExtractPhrases, GeneratePhrases')], ['HieroCachingRuleFactory::GetGrammar', 'Rule::alignment'],
 'every alignment of 3 by 3 words, every permutation of 5, and 7 words with three variables; tight and loose phrases (thorough: 4 by 3, permutations of 6, four variables); words pairwise different')
prop('E03', 'Rule features follow from counts over the corpus and its lexical table',
 'Lexical probabilities are relative frequencies of links, unaligned words counting as linked to nothing. The phrase pairs for a sentence are those of the whole corpus less any sentence left out, each once, and every feature of a pair is its definition on the counts: coherent translation probability, sample and pair counts, singleton flags, and best lexical probabilities in both directions.',
 ['inputs'], 'all aligned corpora', 'The tests give each feature one set of mocked counts.', ['extractor/rule_extractor.cc', 'extractor/scorer.cc', 'extractor/translation_table.cc', 'extractor/features/target_given_source_coherent.cc', 'extractor/features/max_lex_source_given_target.cc', 'extractor/features/max_lex_target_given_source.cc', 'extractor/features/count_source_target.cc', 'extractor/features/sample_source_count.cc', 'extractor/features/is_source_singleton.cc', 'extractor/features/is_source_target_singleton.cc'],
 [('counts', 'extractor/rule_extractor.cc: ExtractRules'), ('lexical table', 'extractor/translation_table.cc: TranslationTable'), ('features', 'extractor/features')], ['Rule::scores', 'TranslationTable::GetTargetGivenSourceScore'],
 'two sentence pairs of up to two words from two, or three words from one, any subset of two one-to-one alignments; the second source sentence fixed')
prop('E04', 'Sampled occurrences are distinct and never from a left-out sentence',
 'From the occurrences of a phrase, as a range of the suffix array or as a list, the sampler returns occurrences in order, none twice, none from a sentence left out, chunks kept together, never more than asked for; all of the usable ones when the limit allows, and exactly the limit when there are more and none is left out.',
 ['inputs'], 'all occurrence lists, limits and sets of sentences left out', 'The tests sample a few fixed lists.', ['extractor/backoff_sampler.cc', 'extractor/matchings_sampler.cc', 'extractor/suffix_array_sampler.cc', 'extractor/phrase_location_sampler.cc'],
 [('sampling', 'extractor/backoff_sampler.cc: Sample')], ['PhraseLocationSampler::Sample'],
 'up to six occurrences, limits 1..4, one or two chunks (thorough: nine, 1..8)')
prop('W01', 'The word aligner trains its model and prints the most probable links',
 'For any corpus and options the aligner runs expectation-maximisation of the lexical model, uniform or favouring the diagonal, with or without a null word and a Dirichlet prior; prints for each target word the most probable source word under the trained model, or nothing; scores sentence pairs by their probability; writes every parameter above the threshold and those of the most probable links, and scores the same after loading them. The closed forms of the diagonal prior and its derivative are the sums they stand for.',
 ['inputs'], 'all corpora and options', 'There is no test of the word aligner.', ['word-aligner/fast_align.cc', 'word-aligner/da.h', 'word-aligner/ttables.h', 'word-aligner/ttables.cc', 'utils/corpus_tools.cc'],
 [('training', 'word-aligner/fast_align.cc: main'), ('diagonal prior', 'word-aligner/da.h: ComputeZ, ComputeDLogZ'), ('tables', 'word-aligner/ttables.h: Normalize, NormalizeVB, operator+=')], ['the printed alignments and scores', 'the parameter file'],
 'two sentence pairs of up to 3 by 2 words from three, six sets of options of up to four iterations; lengths up to 6 (thorough: 12) and five tensions for the diagonal prior; ties may go either way')
prop('D13', 'The model-free feature functions fire what they are named for',
 'On every rule the penalties count its target and source words and variables; identity, bigram, shape and class features name its symbols in order; the word set counts target words inside or outside its vocabulary; span features name the words at both ends of the span, by class and with summed values when asked; reordering is marked by span size. N-gram detection counts, over any derivation, exactly the n-grams of the translation with its sentence boundaries; derivations of the same words have the same state. Source paths count words and bigrams.',
 ['inputs'], 'all rules, spans and derivations', 'The tests check two of these features on one rule each.', ['decoder/ff_basic.cc', 'decoder/ff_rules.cc', 'decoder/ff_wordset.cc', 'decoder/ff_charset.cc', 'decoder/ff_ruleshape.cc', 'decoder/ff_spans.cc', 'decoder/ff_ngrams.cc', 'decoder/ff_source_path.cc'],
 [('rules', 'decoder/ff_rules.cc, decoder/ff_ruleshape.cc: TraversalFeaturesImpl'), ('spans', 'decoder/ff_spans.cc: PrepareForInput, TraversalFeaturesImpl'), ('n-grams', 'decoder/ff_ngrams.cc: LookupWords, FireFeatures, FinalTraversal')], ['FeatureFunction::TraversalFeatures', 'FeatureFunction::FinalTraversalFeatures'],
 'rules of up to two source symbols and one target word (thorough: three and two); orders 1 to 4 and sentences of up to three words (thorough: four), every seventh derivation')
prop('D14', 'Sampled derivations and summed translations follow the forest weights',
 'Sampling from a forest draws each derivation with its weight divided by the weight of all, sample after sample, with the words, bracketing, features and score of that derivation. The search for the most probable translation, with a beam wide enough, prints a translation whose derivations together weigh at least as much as those of any other; with any beam it prints a translation of the forest.',
 ['inputs', 'histories'], 'all forests, weights and draws', 'Nothing in the tests samples from a forest or sums over derivations of one translation.', ['decoder/hg_sampler.cc', 'decoder/maxtrans_blunsom.cc', 'utils/sampler.h'],
 [('sampling', 'decoder/hg_sampler.cc: sample_hypotheses, sample_trees'), ('summed translations', 'decoder/maxtrans_blunsom.cc: MaxTransBeamSearch')], ['HypergraphSampler::sample_hypotheses', 'HypergraphSampler::sample_trees', 'Hack::MaxTrans'],
 'forests of three nodes and four edges and six fixed shapes, no node twice in a derivation; all draws on a grid of eighths, up to three per derivation (thorough: four); three weights per edge for summed translations')
prop('D15', 'Word alignments read off a forest link the words its rules pair',
 'For the forest of a sentence pair the printed links of the best derivation, or of each of the k best in order, join every source word and every target word generated by the same rule, and nothing else; the posterior links join each target word to the source words most probable for it under all derivations. Target words that no source word generates stay unlinked. Lattice input on either side gives the links of the best derivation.',
 ['inputs'], 'all sentence pairs and derivations', 'One system test aligns a few fixed sentences.', ['decoder/aligner.cc', 'utils/alignment_io.cc'],
 [('coverage', 'decoder/aligner.cc: SourceEdgeCoveragesUsingParseIndices, SourceEdgeCoveragesUsingTree, TargetEdgeCoveragesUsingTree'), ('links', 'decoder/aligner.cc: WriteAlignment')], ['AlignerTools::WriteAlignment'],
 'sentences of one to three words (thorough: four), up to two boxes left to other rules, up to five derivations, without ties')
