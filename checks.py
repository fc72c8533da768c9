# What each check runs: harnesses (source, repository files compiled with the
# symbolic-execution pass, bounds per tier) and properties -> harnesses.
DEC = ['decoder/hg.cc','decoder/viterbi.cc','decoder/trule.cc','decoder/rule_lexer.cc','decoder/tree_fragment.cc','utils/string_piece.cc','utils/fdict.cc','utils/tdict.cc','utils/dict.cc','utils/verbose.cc','utils/weights.cc','utils/filelib.cc','utils/gzstream.cc','utils/stringlib.cc']
BL = ['-lboost_serialization','-lboost_system','-lz']
HARNESSES = {}
CHECKS = {}
def D(*a): return ['-D' + x for x in a]
def H(name, src, repo, libs, about, quick, thorough=None, must=(), **kw):
    HARNESSES[name] = dict(src=src, repo=repo, libs=libs, about=about, must=list(must), quick=quick, **kw)
    if thorough: HARNESSES[name]['thorough'] = thorough
def P(pid, *harnesses, **kw): CHECKS[pid] = dict(harnesses=list(harnesses), **kw)

# ---- decoder: hypergraphs
H('hg_inside', 'hg_inside.cpp', DEC, BL, 'every topologically ordered hypergraph with NN nodes, MM edges, arity<=2, and six larger shapes; integer edge weights and values symbolic',
  [(D('SHAPES'),60),(D('NN=3','MM=4'),60)], [(D('SHAPES'),60),(D('NN=3','MM=4'),60),(D('NN=4','MM=4'),300)], ['ambiguous'])
H('hg_vit', 'hg_vit.cpp', DEC, BL, 'Viterbi over every small hypergraph (NN nodes, MM edges, arity<=AR, and six shapes); log weights on a half-integer grid in [-WW,WW], symbolic',
  [(D('SHAPES','WW=3'),60),(D('NN=3','MM=4','AR=2','WW=3'),60)], [(D('SHAPES','WW=6'),200),(D('NN=3','MM=5','AR=2','WW=3'),500)], ['ambiguous'])
H('hg_kbest', 'hg_kbest.cpp', DEC, BL, 'lazy k-best, k<=KK, over every small hypergraph; log weights on a half-integer grid in [-WW,1], symbolic',
  [(D('SHAPES','WW=1','KK=4'),60),(D('NN=3','MM=4','AR=2','WW=2','KK=4'),60)], [(D('SHAPES','WW=3','KK=5'),300),(D('NN=3','MM=4','AR=2','WW=3','KK=6'),300)], ['ambiguous'])
H('hg_kbestu', 'hg_kbest.cpp', DEC, BL, 'lazy unique k-best, k<=KK, rules forked to share words', [(D('UNIQ','NN=2','MM=4','AR=1','WW=1','KK=2'),60),(D('UNIQ','USHAPES','WW=2','KK=5'),60)], [(D('UNIQ','USHAPES','WW=3','KK=6'),300),(D('UNIQ','NN=3','MM=4','AR=2','WW=1','KK=3'),600)], ['ambiguous'])
H('hg_prune', 'hg_prune.cpp', DEC, BL, 'beam pruning (beams alpha=0.25+n, n<AA; PM=1: also with a preserved edge), weights symbolic in [-WW,0]',
  [(D('SHAPES','WW=3','AA=2','PM=0'),120),(D('NN=3','MM=3','AR=2','WW=3','AA=2','PM=1'),120)], [(D('SHAPES','WW=3','AA=4','PM=1'),300),(D('NN=3','MM=4','AR=2','WW=3','AA=4','PM=1'),300)], ['pruned'])
H('hg_density', 'hg_prune.cpp', DEC, BL, 'density pruning (density 1+n/2, n<AA), weights forked over WW values per edge',
  [(D('DENSITY','SHAPES','WW=2','AA=2','PM=0'),60),(D('DENSITY','NN=3','MM=4','AR=1','WW=2','AA=3','PM=0'),60)], [(D('DENSITY','SHAPES','WW=3','AA=3','PM=0'),300),(D('DENSITY','NN=3','MM=4','AR=2','WW=3','AA=3','PM=0'),300)], ['pruned'])
H('hg_sum', 'hg_sum.cpp', DEC, BL, 'sum-product posteriors, weight pushing and sum-product beams on every small hypergraph, weights forked', [(D('SHAPES'),120),(D('NN=3','MM=3','AR=2'),120)], [(D('SHAPES'),120),(D('NN=3','MM=4','AR=2'),600)], ['pruned','ambiguous'])
H('hg_ops', 'hg_ops.cpp', DEC+['decoder/hg_union.cc'], BL, 'topological sort of a permuted graph, edge pruning, edge subsets, unions over every small hypergraph and every mask',
  [(D('SHAPES'),90),(D('NN=2','MM=3','AR=2'),60)], [(D('SHAPES'),90),(D('NN=3','MM=4','AR=2'),700)], ['sorted','pruned','subset','union','disjoint'])
P('D01', 'hg_inside')
P('D02', 'hg_vit')
P('D03', 'hg_kbest', 'hg_kbestu')
P('D04', 'hg_prune', 'hg_density', 'hg_sum')
P('D05', 'hg_ops', 'hg_sum')

H('parser', 'parser.cpp', DEC+['decoder/bottom_up_parser.cc','decoder/grammar.cc','decoder/lattice.cc','decoder/hg_io.cc','decoder/translator.cc','utils/murmur_hash3.cc'], BL+['-lboost_program_options'], 'every sub-grammar of a pool of eleven rules, sentences of 1..NN words with every span limit, glue grammars, lattices of 2..NN nodes with two extra arcs; rule scores symbolic',
  [(D('NN=3'),60)], [(D('NN=4','EA=2','PB=6'),800)], ['ambiguous','parsed','lattice'])
P('D07', 'parser')
H('hg_io', 'hg_io.cpp', DEC+['decoder/hg_io.cc'], BL, 'binary round trip of every small hypergraph and six larger shapes with rules of up to three variables in every order; feature values arbitrary 64-bit doubles, signatures and spans symbolic; sides of 31..64 symbols; printed grammar parsed back',
  [(D('SHAPES'),120),(D('NN=3','MM=3'),120)], [(D('SHAPES'),200),(D('NN=3','MM=4'),600)], ['binary','cfg','twice','long'])
P('D06', 'hg_io')
H('plf', 'plf.cpp', DEC+['decoder/hg_io.cc','decoder/lattice.cc'], BL, 'lattices of up to NN columns with one or two arcs of any span; words of up to two characters from nine, six costs, both feature notations, blanks and trailing commas; sentences of up to four characters',
  [(D('NN=3'),60)], [(D('NN=4'),400)], ['read','shape','sentence'])
P('D10', 'plf')

# ---- utils
UT = ['utils/fdict.cc','utils/dict.cc','utils/tdict.cc','utils/stringlib.cc','utils/string_piece.cc']
H('sparse', 'sparse.cpp', ['utils/sparse_vector.cc','utils/b64tools.cc']+UT, [], 'sequences of LL operations on sparse vectors of 0..8 entries (storage changes at 7), integer values symbolic', [(D('LL=2'),60)], [(D('LL=3'),600)], ['remote','ints'])
P('U01', 'sparse')
H('b64', 'b64.cpp', ['utils/sparse_vector.cc','utils/b64tools.cc','utils/b64featvector.cc']+UT, [], 'base64 of 1..MAXB arbitrary bytes, rejected characters, and both feature-vector codecs with 1..2 features (name lengths 1..255), one byte of a value arbitrary', [(D('MAXB=4'),60)], [(D('MAXB=8'),600)], ['raw','rejected','vec0','vec1'])
P('U05', 'b64')
H('smallvec', 'smallvec.cpp', [], [], 'every sequence of LL operations on small vectors of 0..6 elements (storage changes at 2); values symbolic', [(D('LL=2'),60)], [(D('LL=3'),600)], ['remote','inline'])
H('dict', 'dict.cpp', UT, [], 'word pairs over four letters, lines of up to NN characters from two letters, space and tab, 900..1200 generated words, compounds of three parts', [(D('NN=5'),60)], [(D('NN=7'),400)], ['words','many','lines','multi','feats'])
H('strings', 'strings.cpp', UT, [], 'lines of up to NN arbitrary non-zero bytes, segment tags with up to two attributes with arbitrary values', [(D('NN=4'),60)], [(D('NN=6'),400)], ['tokens','trim','multisep','input','sgml','plain','utf8'])
H('align', 'align.cpp', UT+['utils/alignment_io.cc','utils/filelib.cc','utils/gzstream.cc'], ['-lboost_program_options','-lz'], 'every pair of alignments of 2x2, 1x3/3x1 and WAxHA/WBxHB words; lines of up to two links', [(D('WA=2','HA=3','WB=2','HB=2'),60)], [(D('WA=2','HA=3','WB=2','HB=3'),300)], ['io','grown','final-and'])
P('U02', 'smallvec')
P('U03', 'dict')
P('U07', 'align')
P('U08', 'strings')
H('logval', 'logval.cpp', [], [], 'products, powers and comparisons of three signed log values on a half-integer grid in [-8,8] (symbolic); sums over 11x11 magnitudes up to 1e300', [([],60)], None, ['grid','sums'])
H('weights', 'weights.cpp', UT+['utils/weights.cc','utils/filelib.cc','utils/gzstream.cc','utils/verbose.cc','utils/corpus_tools.cc','utils/sparse_vector.cc','utils/b64tools.cc'], ['-lz'], 'weight files of three features over ten doubles including extremes, layouts with comments, blank lines and four separators; corpora of up to four lines over up to three shards', [([],60)], None, ['file','text','str','corpus'])
H('arrays', 'arrays.cpp', [], [], 'every keep mask of up to NN elements with symbolic values; arrays up to 3x3', [(D('NN=5'),60)], [(D('NN=8'),200)], ['removing','array'])
H('sampler', 'sampler.cpp', [], [], 'up to NN symbolic integer weights and every draw on a 256-point grid; alias tables for every distribution on 4 outcomes in 8192ths', [(D('NN=3','GB=13'),60)], [(D('NN=5','GB=14'),300)], ['select','coin','alias','annealed'])
P('U04', 'logval')
P('U06', 'weights')
P('U09', 'arrays')
P('U10', 'sampler')

H('tree', 'tree.cpp', DEC, BL, 'trees of up to NB brackets, words and open sites over two labels and two words, five larger trees with choices at marked places, three layouts, built in storage that held something else', [(D('NB=3'),90),(D('NB=0'),60)], [(D('NB=5'),400)], ['cut','cut across','larger','annotated','any symbols'])
P('D12', 'tree')
H('rules', 'rules.cpp', DEC+['decoder/grammar.cc','decoder/bottom_up_parser.cc','decoder/lattice.cc','decoder/hg_io.cc','utils/murmur_hash3.cc'], BL, 'rules of up to FL source symbols with every order of their variables, words and categories, four features, three alignments; rules of 9..13 variables; arities 0..3 substituted with symbolic words; monolingual rules; two grammars of up to NL of four lines at levels, last newline optional', [(D("FL=3","NL=2"),60)], [(D('FL=4','NL=3'),400)], ['text','wide','feats','phrase','subst','mono','grammar','levels'])
P('D08', 'rules')
MT = ['mteval/ns.cc','mteval/ns_cer.cc','mteval/ns_comb.cc','mteval/ns_docscorer.cc','mteval/ns_ext.cc','mteval/ns_ssk.cc','mteval/ns_ter.cc','mteval/ns_ter_impl.cc','mteval/ns_wer.cc','mteval/scorer.cc','mteval/ter.cc','mteval/wer.cc','mteval/aer_scorer.cc','mteval/comb_scorer.cc','mteval/external_scorer.cc','utils/alignment_io.cc','utils/filelib.cc','utils/gzstream.cc','utils/verbose.cc']+UT
H('bleu', 'bleu.cpp', MT, ['-lz'], 'hypothesis and references of TOT words in total (symbolic, every order type and pattern of repetitions), four variants; ten fixed sentences for scores, sums and text form; character splitting', [(D('WORDS=1','TOT=4','HL=3','WMAX=15'),120),(D('WORDS=0','TOT=0','HL=0','WMAX=1'),60)], [(D('WORDS=1','TOT=5','HL=3','WMAX=(1<<20)'),800),(D('WORDS=0','TOT=0','HL=0','WMAX=1'),60)], ['stats','score','chars'])
H('edits', 'edits.cpp', MT, ['-lz'], 'up to LL symbolic words per side against the recursive edit distance; move-aware edits of hypotheses and references of up to RL words from three; character edits with up to two references', [(D('K0=0','KN=3','LL=3','RL=3','KL=4'),60)], [(D('K0=0','KN=3','LL=4','RL=4','KL=4'),600)], ['distance','ter','moves','alternatives','cer'])
H('mixes', 'edits.cpp', MT, ['-lz'], 'three mixtures over sentences of up to four words from three; every pair of link sets over five links; string kernel of KL words from two', [(D('K0=3','KN=3','LL=3','RL=3','KL=4'),60)], [(D('K0=3','KN=3','LL=3','RL=3','KL=5'),600)], ['mix','aer','kernel'])
P('M03', 'mixes')
P('M01', 'bleu')
P('M02', 'edits')

AM = DEC+['decoder/apply_models.cc','decoder/ff.cc','decoder/ffset.cc','decoder/ff_basic.cc','decoder/lattice.cc','decoder/hg_io.cc','utils/murmur_hash3.cc']
H('am', 'am.cpp', AM, BL, 'six shapes with rules over three words and a goal rule; WP settings of the weights, states of a bigram model and a length model with ignored bytes; pop limits 1..3; full, cube, fast cube and guided cube pruning', [(D('MODE=0','SHAPES','WP=2','WW=1','POPS=2'),60),(D('MODE=1','SHAPES','WP=1','WW=2','POPS=3'),60),(D('MODE=2','SHAPES','WP=2','WW=1','POPS=1'),60)], [(D('MODE=0','NN=3','MM=4','WP=3','WW=2','POPS=3'),300)], ['all','pruned','split','merged','side'])
P('D09', 'am')
H('hgx', 'hgx.cpp', DEC+['decoder/hg_intersect.cc','decoder/bottom_up_parser.cc','decoder/grammar.cc','decoder/lattice.cc','decoder/hg_io.cc','decoder/translator.cc','utils/murmur_hash3.cc'], BL+['-lboost_program_options'], 'six shapes and every graph of NN nodes and MM edges, with a goal rule and feature values symbolic; targets of the first three derivations, alternatives, unknown words or words left out; three variables in any order, chains of twelve nodes; chains of up to three positions with shared rules', [(D('CHAIN=0','SHAPES'),60),(D('CHAIN=0','EXTRA'),60),(D('CHAIN=0','NN=2','MM=3'),60),(D('CHAIN=1','NN=2','MM=2'),60)], [(D('CHAIN=0','NN=3','MM=4'),300)], ['general','lattice','several','empty','chain','three','long'])
P('D11', 'hgx')
KLU = ['klm/util/bit_packing.cc','klm/util/exception.cc','klm/util/file.cc','klm/util/mmap.cc','klm/util/ersatz_progress.cc','klm/util/file_piece.cc','klm/util/murmur_hash.cc','klm/util/parallel_read.cc','klm/util/pool.cc','klm/util/read_compressed.cc','klm/util/scoped.cc','klm/util/string_piece.cc','klm/util/usage.cc'] + ['klm/util/double-conversion/%s.cc' % x for x in ('bignum-dtoa','bignum','cached-powers','diy-fp','double-conversion','fast-dtoa','fixed-dtoa','strtod')]
KLL = ['klm/lm/%s.cc' % x for x in ('bhiksha','binary_format','config','lm_exception','model','quantize','read_arpa','search_hashed','search_trie','trie','trie_sort','value_build','virtual_interface','vocab')]
H('kmem', 'kmem.cpp', KLU+KLL, ['-lz','-lbz2','-llzma','-lrt'], 'symbolic integers, numbers, words and pointers in fields at OFFS bit offsets; pointer tables and trie nodes of up to EN entries; quantisation of up to EN values', [(D('OFFS=8','EN=2','WHAT=%d'%w),60) for w in range(6)]+[(D('QUANT','OFFS=8','EN=2','WHAT=6'),60)], [(D('OFFS=64','EN=4','WHAT=%d'%w),200) for w in range(6)]+[(D('QUANT','OFFS=8','EN=3','WHAT=6'),300)], ['integers','floats','width','array','direct','found','absent','zero','nearest','exact'])
H('ktab', 'ktab.cpp', ['klm/util/exception.cc','klm/util/scoped.cc','klm/util/file.cc'], ['-lrt'], 'up to OPS operations with symbolic keys up to KMAX on growing tables, capacities 2..2+INITS; sorted ranges, pairs and sets of up to NN symbolic elements', [(D('WHAT=%d'%w,'OPS=3','KMAX=9','INITS=1','CAP=2','NN=4','P32=5','P64=4'),60) for w in range(5)]+[(D('WHAT=1','OPS=3','KMAX=11','INITS=0','CAP=4','NN=4','P32=5','P64=4'),60)], [(D('WHAT=%d'%w,'OPS=4','KMAX=40','INITS=2','CAP=2','NN=5','P32=6','P64=6'),200) for w in range(5)]+[(D('WHAT=1','OPS=3','KMAX=24','INITS=0','CAP=5','NN=4','P32=5','P64=4'),300)], ['growing','insert','full','doubled','fixed','search','uniform64','joint','first','all'])
P('K01', 'kmem')
P('K02', 'ktab')
KLQ=[x for x in KLU if 'file_piece' not in x]
KLMC = lambda m,o,b,t,l,step=1: D('MODEL=%d'%m,'ORDER=%d'%o,'NBI=%d'%b,'NTRI=%d'%t,'LEN=%d'%l,'STEP=%d'%step)
H('klm', 'klm.cpp', KLQ+KLL, ['-lz','-lbz2','-llzma','-lrt'], 'probing models of order ORDER over three words, any subset of NBI bigrams, NTRI trigrams and three 4-grams whose contexts are present, four patterns of back-offs, every number a symbolic quarter; every word sequence up to LEN from the start of a sentence and from nothing', [(KLMC(0,3,5,4,3),60),(KLMC(0,4,3,2,4),60)], [(KLMC(0,3,6,5,5),300),(KLMC(0,4,6,5,5),300)], ['queries','blanks','longest'])
H('klmt', 'klm.cpp', KLQ+KLL, ['-lz','-lbz2','-llzma','-lrt'], 'the other data structures (tries, quantised tries, rest costs) on the same models with distinct constant numbers (they pass through temporary files), built in memory or written to a binary file and read back', [(KLMC(m,3,4,3,3),60) for m in range(1,6)]+[(KLMC(m,4,3,2,4),60) for m in (1,4,5)], [(KLMC(m,3,5,4,3),200) for m in range(1,6)]+[(KLMC(m,4,3,3,4),200) for m in range(1,5)], ['queries','blanks','longest','saved'])
H('klmc', 'klm.cpp', KLQ+KLL, ['-lz','-lbz2','-llzma','-lrt'], 'models as for klm; spans of up to LEN words over two words and an unknown one, put together by every STEP-th mix of words, prefixes and spans', [(D('CHART')+KLMC(m,3,5,4,3),60) for m in (0,1,5)]+[(D('CHART')+KLMC(m,4,3,2,4,5),60) for m in (0,1)], [(D('CHART')+KLMC(m,3,6,5,4),150) for m in (0,1,5)]+[(D('CHART')+KLMC(m,4,5,4,4),150) for m in (0,1,5)], ['chart','full','open'])
H('kff', 'kff.cpp', DEC+KLQ+KLL+['decoder/ff.cc','decoder/ff_klm.cc','decoder/ff_factory.cc','decoder/lattice.cc','decoder/hg_io.cc'], BL+['-lbz2','-llzma','-lrt'], 'the decoder feature over probing models of order ORDER with symbolic numbers; sentences of up to LEN words (every SSTEP-th), derived in every TSTEP-th way from rules of words and up to two variables in either order; plain, with the boundary words in the rules (either missing), and with word classes', [(D('MODEL=0','ORDER=2','NBI=4','NTRI=0','LEN=3','SSTEP=1','TSTEP=6'),60),(D('MODEL=0','ORDER=3','NBI=4','NTRI=2','LEN=3','SSTEP=2','TSTEP=10'),60)], [(D('MODEL=0','ORDER=3','NBI=6','NTRI=4','LEN=4','SSTEP=5','TSTEP=36'),300)], ['plain','explicit','missing','classes','oov'])
P('K05', 'kff')
P('K03', 'klm', 'klmt')
P('K04', 'klmc')
DEF = ['SP=4','NN=2','MM=3','BW=6','SEG=3','GAPS=0']
DP = ['training/dpmert/mert_geometry.cc','training/dpmert/error_surface.cc','training/dpmert/line_optimizer.cc','training/dpmert/ces.cc']
H('mert', 'mert.cpp', sorted(set(DEC+MT+DP)), BL, 'envelopes of forests against every derivation, error surfaces, line search against every point, surfaces written and read', [(D('WHAT=0','SHAPES=0','SN=6','SP=3','NN=2','MM=3','BW=3','SEG=3','GAPS=0'),60),(D('WHAT=0',*DEF),60),(D('WHAT=1',*DEF),60),(D('WHAT=1','SP=4','NN=2','MM=3','BW=6','SEG=3','GAPS=1'),60),(D('WHAT=2',*DEF),60)], [(D('WHAT=1','SP=4','NN=2','MM=3','BW=6','SEG=4','GAPS=1'),300),(D('WHAT=0','SHAPES=0','SN=6','NN=2','MM=3','SP=6','BW=6','SEG=3','GAPS=0'),300)], ['turns','three','steps','line','flat','written'])
P('T01', 'mert')
EXT = ['extractor/'+x+'.cc' for x in ('alignment data_array suffix_array phrase matchings_finder matchings_trie phrase_location phrase_builder precomputation fast_intersector rule rule_extractor rule_extractor_helper target_phrase_extractor rule_factory grammar scorer backoff_sampler matchings_sampler suffix_array_sampler phrase_location_sampler translation_table vocabulary time_util features/feature features/count_source_target features/is_source_singleton features/is_source_target_singleton features/max_lex_source_given_target features/max_lex_target_given_source features/sample_source_count features/target_given_source_coherent').split()] + ['utils/filelib.cc','utils/gzstream.cc']
DEF = ['LEN=5','WORDS=2','SPAN=3','PRE=4','QLEN=4','SL=3','TL=3','TIGHT=2','SPANS=2','GAPS=2','NT=2','SYM=5','OCC=6','MAXS=4','LIMS=4']
def EX(*o): return [x for x in DEF if x.split('=')[0] not in [y.split('=')[0] for y in o]] + list(o)
H('exts', 'ext.cpp', EXT, BL, 'suffix array, common prefixes and phrase ranges of a small corpus against its definition', [(D('WHAT=0','PIVOT=2',*[x.replace('LEN=5','LEN=4') for x in DEF]),60),(D('WHAT=0',*[x.replace('LEN=5','LEN=7') for x in DEF]),60),(D('WHAT=0','PASSAGE=10',*EX('WORDS=4')),60)], [(D('WHAT=0','PASSAGE=19',*EX('WORDS=5')),300),(D('WHAT=0','PIVOT=3',*EX('LEN=5')),300),(D('WHAT=0',*EX('LEN=6','WORDS=3')),300),(D('WHAT=0',*EX('LEN=9')),300)], ['trigram','sentences'])
H('extl', 'ext.cpp', EXT, BL, 'patterns of a sentence and where they occur in a corpus, with and without precomputed collocations', [(D('WHAT=1',*EX('WORDS=1','SPAN=4','QLEN=5','LEN=6')),60),(D('WHAT=1',*EX('LEN=4','QLEN=3','PRE=2','LIMS=2')),60)], [(D('WHAT=1',*EX('WORDS=1','SPAN=5','QLEN=6','LEN=8')),400),(D('WHAT=1',*EX('LEN=5','QLEN=4','PRE=2','LIMS=2')),400)], ['two gaps','often','unknown'])
H('extr', 'ext.cpp', EXT, BL, 'rules extracted from an aligned sentence pair against the definition of a licensed rule', [(D('WHAT=2',*DEF),60),(D('WHAT=2','PERM=1',*EX('SL=5','TL=5','SPAN=4','GAPS=1')),60),(D('WHAT=2','PERM=2',*EX('SL=7','TL=7','SPAN=7','SPANS=1','GAPS=1','NT=3','SYM=7','TIGHT=1')),60)], [(D('WHAT=2',*EX('SL=4','SPANS=1','GAPS=1','SPAN=4')),400),(D('WHAT=2',*EX('TL=4','SPANS=1','GAPS=1','SPAN=4')),400),(D('WHAT=2','PERM=1',*EX('SL=6','TL=6','SPAN=5','GAPS=1')),300),(D('WHAT=2','PERM=2',*EX('SL=9','TL=9','SPAN=9','SPANS=1','GAPS=1','NT=4','SYM=9','TIGHT=1')),300)], ['two gaps','inner gap','rules','loose'])
H('extc', 'ext.cpp', EXT, BL, 'phrase pairs, counts, lexical table and feature values of a two-sentence corpus counted by hand', [(D('WHAT=3',*EX('SL=2','WORDS=2')),60),(D('WHAT=3',*EX('SL=3','WORDS=1')),60)], [(D('WHAT=3',*EX('SL=3','WORDS=2')),600),(D('WHAT=3',*EX('SL=2','WORDS=3')),300)], ['repeated','left out','longer'])
H('extp', 'ext.cpp', EXT, BL, 'samples of occurrences with sentences left out', [(D('WHAT=4',*DEF),60)], [(D('WHAT=4',*EX('OCC=9','MAXS=8')),300)], ['sampled','left out'])
P('E01', 'exts', 'extl')
P('E02', 'extr')
P('E03', 'extc')
P('E04', 'extp')
H('wa', 'wa.cpp', UT+['word-aligner/ttables.cc','utils/corpus_tools.cc','utils/filelib.cc','utils/gzstream.cc','utils/verbose.cc'], ['-lboost_program_options','-lz'], 'two sentence pairs of up to 3x2 words, six combinations of options, one to four iterations', [(D('PART=0','LENA=3','LENB=3','DLEN=1'),60)], [(D('PART=0','LENA=4','LENB=6','DLEN=1'),600)], ['trained','loaded','tension','prior','reversed'])
H('wad', 'wa.cpp', UT+['word-aligner/ttables.cc','utils/corpus_tools.cc','utils/filelib.cc','utils/gzstream.cc','utils/verbose.cc'], ['-lboost_program_options','-lz'], 'closed forms of the diagonal prior for lengths up to DLEN, count tables after three increments', [(D('PART=1','LENA=1','LENB=1','DLEN=6'),60)], [(D('PART=1','LENA=1','LENB=1','DLEN=12'),300)], ['diagonal','tables'])
P('W01', 'wa', 'wad')
FFL = DEC+['decoder/ff.cc','decoder/ff_basic.cc','decoder/ff_rules.cc','decoder/ff_wordset.cc','decoder/ff_charset.cc','decoder/ff_spans.cc','decoder/ff_ruleshape.cc','decoder/ff_source_path.cc','decoder/ff_ngrams.cc','decoder/lattice.cc','decoder/hg_io.cc']
H('ffr', 'ffs.cpp', FFL, BL+['-lz'], 'rules of up to FLEN source symbols and ELEN target words in any order, two categories of variables, six spans of a sentence of 22 words; ten features', [(D('PART=0','FLEN=2','ELEN=1','NLEN=1','DSTEP=1'),120)], [(D('PART=0','FLEN=3','ELEN=2','NLEN=1','DSTEP=1'),600)], ['rules','reordering','collapsed'])
H('ffn', 'ffs.cpp', FFL, BL+['-lz'], 'n-gram detection of orders 1 to 4 over sentences of up to NLEN words from three, four settings, every DSTEP-th derivation; source paths of up to four words', [(D('PART=1','FLEN=1','ELEN=1','NLEN=3','DSTEP=7'),60)], [(D('PART=1','FLEN=1','ELEN=1','NLEN=4','DSTEP=5'),600)], ['ngrams','path'])
P('D13', 'ffr', 'ffn')
H('draw', 'draw.cpp', DEC, BL, 'every forest of NN nodes and MM edges and six shapes: all draws on a grid of eighths, up to DRAWS per derivation; three weights per edge for the most probable translation, wide and narrow beams', [(D('WHAT=0','SHAPES=1','NN=0','MM=0','DRAWS=3'),60),(D('WHAT=0','SHAPES=0','NN=3','MM=4','DRAWS=2'),60),(D('WHAT=1','SHAPES=1','NN=0','MM=0','DRAWS=2'),60),(D('WHAT=1','SHAPES=0','NN=3','MM=4','DRAWS=2'),60)], [(D('WHAT=0','SHAPES=1','NN=0','MM=0','DRAWS=4'),300),(D('WHAT=0','SHAPES=0','NN=3','MM=5','DRAWS=3'),300),(D('WHAT=1','SHAPES=0','NN=3','MM=5','DRAWS=2'),300)], ['several draws','trees','ambiguous','narrow'])
P('D14', 'draw')
H('links', 'links.cpp', DEC+['decoder/aligner.cc','decoder/lattice.cc','decoder/hg_io.cc','utils/alignment_io.cc'], BL, 'sentence pairs of SLEN..SLEN+1 by TLEN..TLEN+1 words, every choice of up to two boxes that rules may leave to others, up to five derivations, three weights; posterior, Viterbi, several best and lattice modes', [(D('SLEN=1','TLEN=1'),60),(D('SLEN=2','TLEN=2'),60)], [(D('SLEN=3','TLEN=2'),300),(D('SLEN=2','TLEN=3'),300)], ['posterior','several','lattice','inserted'])
P('D15', 'links')
H('losses', 'losses.cpp', sorted(set(DEC+MT+['training/utils/candidate_set.cc','training/utils/risk.cc','training/utils/entropy.cc','decoder/hg_io.cc'])), BL+['-lboost_program_options','-Wl,--unresolved-symbols=ignore-all'], 'up to CAND candidates of one sentence and two of another, up to PAIRS ranked pairs with one held out, two features, four weights; candidate sets of the first SH forests with three feature patterns per edge', [(D('WHAT=0','CAND=3','PAIRS=2','SH=6'),70),(D('WHAT=1','CAND=3','PAIRS=2','SH=6'),80),(D('WHAT=2','CAND=3','PAIRS=2','SH=6'),80)], [(D('WHAT=0','CAND=4','PAIRS=3','SH=6'),300),(D('WHAT=1','CAND=4','PAIRS=3','SH=6'),300),(D('WHAT=2','CAND=4','PAIRS=3','SH=6'),600)], ['risk','objective','held out','ranking','merged','read'])
P('T02', 'losses')
