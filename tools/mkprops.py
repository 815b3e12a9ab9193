#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are reviewable)."""
import json, os
H = "include/sim_ds/"
S = H + "string_util/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))

p("B01", "Bit vector behaves as a growable sequence of bits",
  "A bit vector is observably a sequence of booleans: construction, element write, range fill, resize, assign, push_back and iterator movement change exactly the addressed positions, set newly exposed positions to the requested value and leave every other position unchanged, for every size and position. No operation on valid positions reads or writes outside the vector's storage.",
  ["inputs", "histories"], "all sizes, positions, fill ranges and bit values; all sequences of mutating operations",
  "Tests convert one random vector and read it back; word-boundary combinations of begin/end offsets, shrink-then-grow histories and frame conditions are not sampled.",
  [H+"BitVector.hpp", H+"BitReference.hpp"],
  [("word/mask addressing", H+"BitVector.hpp:_make_ref/_make_iter"), ("range fill", H+"BitVector.hpp:_fill"), ("growth", H+"BitVector.hpp:_resize/_assign"), ("iterator arithmetic", H+"BitReference.hpp:BitIterator")],
  [("storage words", "bit p is bit p%64 of word p/64", H+"BitVector.hpp:storage_")])
p("B02", "rank equals the number of set bits in the prefix",
  "For every bit sequence and every position i from 0 to the length inclusive, rank(i) is the number of ones strictly before i and rank_0(i) is the number of zeros strictly before i; the query reads only memory owned by the structure.",
  ["inputs"], "all bit sequences, all lengths, all positions",
  "Tests check one random vector; block/word boundaries, lengths that are multiples of 64 or 512, full blocks and the end position are not covered.",
  [H+"SuccinctBitVector.hpp", H+"bit_util.hpp"],
  [("rank directory construction", H+"SuccinctBitVector.hpp:SuccinctBitVector(BitVector&&)"), ("rank query", H+"SuccinctBitVector.hpp:rank_1/rank_0")],
  [("rank directory", "absolute count per 512 bits + seven 9-bit relative counts", H+"SuccinctBitVector.hpp:basic_block_")])
p("B03", "select finds the position of the k-th set bit",
  "For every bit sequence with m ones and every k below m, select(k) is the unique position holding a one that has exactly k ones before it, so select and rank are inverse; the query terminates and reads only memory owned by the structure.",
  ["inputs"], "all bit sequences, all k below the number of ones",
  "Tests select over one random density; skewed densities (dense tail after sparse head, sparse middle, all ones in a word half) reach different directory entries.",
  [H+"SuccinctBitVector.hpp", H+"bit_util.hpp"],
  [("select tips", H+"SuccinctBitVector.hpp:SuccinctBitVector(BitVector&&)"), ("binary search + relative scan", H+"SuccinctBitVector.hpp:select"), ("in-word select", H+"bit_util.hpp:sel")],
  [("select samples", "block index of every 512th one", H+"SuccinctBitVector.hpp:select_tips_")])
p("B04", "64-bit word primitives compute their mathematical functions",
  "For every word: the population counts of 8/16/32/64-bit words and of a low-order prefix equal the number of ones, the aligned-pair and aligned-triple pattern counts equal the number of matching groups, trailing/leading zero counts equal the distance to the first one (or the width if none), in-word select gives the 1-based position of the i-th one, field extraction and masks give exactly the requested bits, and the swap functions exchange adjacent groups and are involutions.",
  ["inputs"], "all 2^64 words, all valid widths, offsets, pattern types and ranks",
  "Only masks are unit-tested; a wrong table entry, mask constant or carry in a multiply-shift sum is visible on a tiny fraction of words.",
  [H+"bit_util.hpp"],
  [("population counts", H+"bit_util.hpp:popcnt*"), ("scan", H+"bit_util.hpp:ctz/clz"), ("in-word select and its table", H+"bit_util.hpp:sel/kLtSel"), ("masks", H+"bit_util.hpp:WidthMask/OffsetMask/bextr"), ("swaps", H+"bit_util.hpp:swap_pi*")])
p("B05", "256-bit block primitives compute their mathematical functions",
  "For every 256-bit block: population count, zero test, trailing and leading zero counts, set-all and copy give the mathematical result over all 256 bits, and the xor-permutation maps bit p of the source to bit (p xor mask) of the destination (hence is an involution); nothing outside the destination block is written.",
  ["inputs"], "all 256-bit blocks, all 8-bit masks",
  "No unit test touches these functions.",
  [H+"bit_util256.hpp"],
  [("block scans", H+"bit_util256.hpp:ctz256/clz256/popcnt256/is_zero256"), ("xor permutation", H+"bit_util256.hpp:xor_map"), ("block move", H+"bit_util256.hpp:copy256_epi64/set256_epi1")])
p("B06", "Fixed-width integer vector behaves as a sequence of w-bit integers",
  "For every element width from 1 to 64 bits, a write of a value fitting the width at index i is read back at i, leaves every other element unchanged, including elements sharing its words, and touches only owned storage; push_back, resize and assign give exactly the sequence semantics, and conversion from an integer vector preserves every element.",
  ["inputs", "histories"], "all widths 1..64, all indices, values fitting the width, all operation sequences",
  "Tests convert one random vector per run; word-straddling elements at every width/offset pair and neighbours' preservation are not covered, nor widths 63/64.",
  [H+"FitVector.hpp", H+"BitsReference.hpp", H+"calc.hpp", H+"bit_util.hpp"],
  [("element addressing", H+"FitVector.hpp:abs_/rel_/make_ref"), ("straddling read/write", H+"BitsReference.hpp:BitsReference"), ("storage sizing", H+"FitVector.hpp:resize"), ("width choice", H+"calc.hpp:SizeFitsInBits")],
  [("packed storage", "element i occupies bits [i*w,(i+1)*w)", H+"FitVector.hpp:storage_")])
p("B07", "Variable-length coded vector preserves every integer",
  "For every sequence of unsigned integers, the compressed vector built from it (with automatically chosen or caller-supplied level widths covering the largest value) has the same length, and access, iteration, front and back return the original values; the reported depth of an element is the number of extra levels its value needs.",
  ["inputs", "configurations"], "all integer sequences (including empty, single, powers of two, values above 2^32), all level-width lists whose sum covers the maximum",
  "Tests use uniformly random values only and two fixed width lists; skewed distributions that select other level splits are not sampled.",
  [H+"DacVector.hpp", H+"calc.hpp", H+"FitVector.hpp", H+"SuccinctBitVector.hpp"],
  [("encoding", H+"DacVector.hpp:DacVector(vector, units)"), ("decoding", H+"DacVector.hpp:operator[]"), ("level optimisation", H+"calc.hpp:split_positions_optimized_for_dac")])
p("B08", "Packed small-symbol vector: access, update and per-symbol rank",
  "For symbols of 1, 2 or 3 bits, reading index i returns the last value set there (zero if never set), setting changes only that index, and after building, rank(i) is the number of earlier positions that hold the same symbol as position i, for every nonzero symbol.",
  ["inputs", "histories"], "all symbol widths 1..3, all sequences of sets, all indices",
  "Tests use random short sequences; block-boundary counts and the non-dividing 3-bit packing (63 bits per word) are sampled, not settled.",
  [H+"MultiBitVector.hpp", H+"bit_util.hpp"],
  [("packing", H+"MultiBitVector.hpp:abs_/rel_/set"), ("rank directory", H+"MultiBitVector.hpp:Build"), ("rank query", H+"MultiBitVector.hpp:rank/popcnt_")])
p("B09", "Structure-of-fields vector keeps every field of every record independent",
  "For every list of field byte widths, a value that fits field f, written to field f of record i, is read back from there and leaves all other fields and records unchanged, within owned storage; changing the number of records preserves the surviving records, and configuring widths defines exactly that layout regardless of earlier configuration.",
  ["inputs", "configurations", "histories"], "all field width lists (1..8 bytes), all record counts, indices, fields and values",
  "Tests use one layout with random values; reconfiguration, last-record accesses and 1..8 byte fields are not covered.",
  [H+"MultipleVector.hpp"],
  [("layout table", H+"MultipleVector.hpp:set_element_sizes"), ("masked access", H+"MultipleVector.hpp:reference types"), ("growth", H+"MultipleVector.hpp:resize/push_back")])
p("B10", "Wavelet tree access and rank agree with the source sequence",
  "For every nonempty sequence of byte symbols the wavelet tree returns the i-th symbol at index i, the number of occurrences of the i-th symbol before i for rank(i), the number of occurrences of c before i for rank(c,i), and both for the combined query.",
  ["inputs"], "all nonempty symbol sequences over 0..255, all positions, all symbols of the alphabet",
  "Tests use random text with a fixed alphabet; maximum symbols equal to powers of two, unary alphabets and absent symbols are not covered.",
  [H+"WaveletTree.hpp", H+"SuccinctBitVector.hpp", H+"calc.hpp"],
  [("construction", H+"WaveletTree.hpp:WaveletTree(vector)"), ("descent", H+"WaveletTree.hpp:operator[]/rank/AccessAndRank")])
p("B11", "Heap always yields the top element and keeps the multiset",
  "A heap built from any sequence, after any history of pushes and pops, holds exactly the multiset of inserted-minus-removed elements, its top is an element no other element precedes in the heap's order, and successive pops yield the elements in that order.",
  ["inputs", "histories"], "all element sequences, all push/pop histories, min and max orders",
  "Tests push one ascending/random sequence; heap-order damage that needs particular interleavings of push and pop is not sampled.",
  [H+"Heap.hpp"],
  [("sift", H+"Heap.hpp:Heapify"), ("insertion", H+"Heap.hpp:push"), ("removal", H+"Heap.hpp:pop"), ("construction", H+"Heap.hpp:BuildHeap")])
p("B12", "In-place heap sort sorts any range",
  "Heap sort of any random-access range leaves it in nondecreasing order with respect to the given comparison, and the result is a permutation of the input; elements outside the range are untouched.",
  ["inputs"], "all ranges (including empty, single, duplicates) and strict weak orders",
  "One random array is tested.",
  [H+"sort.hpp"],
  [("heap sort", H+"sort.hpp")])
p("B13", "Invertible hash functions are bijections with their stated inverse",
  "For every supported domain width w and every w-bit x, each hash maps into w bits and its inverse recovers x, and hashing the inverse image of y returns y.",
  ["inputs", "configurations"], "all widths 1..64, all values",
  "No direct test; a wrong inverse constant or shift breaks only some widths and values.",
  [H+"BijectiveHash.hpp"],
  [("xorshift", H+"BijectiveHash.hpp:Xorshift"), ("multiplicative", H+"BijectiveHash.hpp:MultiplyHash/PRIME_TABLE"), ("composition", H+"BijectiveHash.hpp:SplitMixHash")])
p("B14", "Compact hash table behaves as a map from integers to integers",
  "After any history of set and erase operations, looking up a key returns the value last set for it if it was not erased since and otherwise reports absence, for all keys and values in the configured widths, across automatic growth.",
  ["histories", "inputs", "configurations"], "all histories of set/erase/get, all keys, growth points, table configurations",
  "Tests insert random keys and read them back; erase, collisions crossing the table end and growth with erased slots are not exercised.",
  [H+"CHT.hpp", H+"BijectiveHash.hpp"],
  [("displacement encoding", H+"CHT.hpp:set/get/erase"), ("growth", H+"CHT.hpp:resize/reserve")])
p("B15", "Compact dynamic rewritable array reads back what was written",
  "After any history of writes to the rewritable array or vector, reading index i returns the value most recently written to i, with all other indices unchanged, whatever sizes of values previously occupied i.",
  ["histories", "inputs"], "all histories of writes (values of any magnitude), all indices, block sizes",
  "One test converts a random vector; rewriting with shorter/longer values and 63/64-bit values is not covered.",
  [H+"CDRWArray.hpp"],
  [("length/offset header", H+"CDRWArray.hpp:set/get"), ("satellite tables", H+"CDRWArray.hpp:sat_table_")])
p("B16", "Initializable arrays: constant-time fill then exact read/write semantics",
  "After initialisation with a value and any history of writes and re-initialisations, reading i returns the value last written to i since the last initialisation, or the initial value; this holds whatever garbage the memory held before.",
  ["histories", "inputs"], "all histories, all indices, all initial memory contents, element types",
  "One short random history is tested; chain-breaking and block-conversion cases depend on write order and on stale contents that look like valid links.",
  [H+"InitializableArray.hpp"],
  [("folklore back-pointers", H+"InitializableArray.hpp:InitializableArrayFolklore"), ("in-place chains", H+"InitializableArray.hpp:InitializableArray")])
p("B17", "Serialisation round trips",
  "For every container that can be written to a stream, reading the written bytes back, into a fresh or an already used object, yields an object with identical observable contents that consumes exactly the written bytes.",
  ["inputs", "histories"], "all container states, all sequences of objects on one stream",
  "No test writes or reads a stream except the dictionary one.",
  [H+"basic.hpp", H+"BitVector.hpp", H+"SuccinctBitVector.hpp", H+"FitVector.hpp", H+"DacVector.hpp", H+"MultiBitVector.hpp", H+"MultipleVector.hpp", H+"WaveletTree.hpp"],
  [("value/vector codecs", H+"basic.hpp:read_val/write_val/read_vec/write_vec"), ("per-class Read/Write", H+"*:Read/Write/LoadFrom/StoreTo")])
p("B18", "String matchers report exactly all occurrences in ascending order",
  "For every text and every nonempty pattern over arbitrary bytes, each matcher reports exactly the positions where the pattern occurs in the text, each once and in ascending order (and the single-result search reports the first), reading only the given text and pattern.",
  ["inputs"], "all texts, all nonempty patterns, all byte values, all seven algorithms",
  "Tests run a few patterns over ASCII text; periodic patterns, overlapping occurrences, bytes above 127 and texts shorter than the pattern are not covered.",
  [S+"PatternMatching.hpp"],
  [("KMP", S+"PatternMatching.hpp:Kmp"), ("Boyer-Moore", S+"PatternMatching.hpp:Bm"), ("Sunday QS/MS/OM", S+"PatternMatching.hpp:Sunday*"), ("Turbo reverse factor", S+"PatternMatching.hpp:TurboBom"), ("brute force", S+"PatternMatching.hpp:BruteForce")])
p("B19", "Factor oracle accepts every factor of its text",
  "The oracle built from any text accepts every substring of that text (including the whole text and the empty string), never accepts a string longer than the text, and answers every query without reading outside its tables.",
  ["inputs"], "all texts, all query strings",
  "Tests explore factors of a few texts; queries past the last state and arbitrary bytes are not covered.",
  [S+"FactorOracle.hpp"],
  [("construction", S+"FactorOracle.hpp:FactorOracle"), ("compact transition table", S+"FactorOracle.hpp"), ("acceptance", S+"FactorOracle.hpp:accept")])
p("B20", "Suffix array is the sorted permutation of suffixes; LCP array is exact",
  "For every string the suffix array is a permutation of all suffix start positions in ascending lexicographic order of unsigned bytes, and the LCP array gives for each adjacent pair the length of their longest common prefix.",
  ["inputs"], "all byte strings",
  "Tests compare a few short strings; induced sorting recursion depth and equal-LMS naming depend on repetitive structure.",
  [S+"SuffixArray.hpp"],
  [("induced sorting", S+"SuffixArray.hpp:sa_is"), ("LCP", S+"SuffixArray.hpp:LCP")])
p("B21", "Dictionary automaton stores exactly its key set with a bijective id mapping",
  "For every sorted set of distinct nonempty NUL-free keys, the dictionary accepts exactly those keys, assigns them distinct ids, and looking up an id's key and a key's id are mutually inverse; strings that are not keys are rejected.",
  ["inputs"], "all sorted key sets, all query strings",
  "Tests check membership of the inserted keys; rejection of near-miss strings and id bijectivity over other key shapes are not sampled.",
  [S+"Samc.hpp", S+"graph_util.hpp"],
  [("character/position mapping", S+"Samc.hpp:Samc"), ("traversal", S+"Samc.hpp:accept"), ("id mapping", S+"Samc.hpp:SamcDict")])
p("B22", "Trie builder represents exactly the inserted keys",
  "The trie built from any set of keys has exactly the prefixes of those keys as nodes, each reachable by exactly one labelled path, and each node's children and acceptance reflect the key set.",
  ["inputs"], "all key sets",
  "Tests build two fixed graphs.",
  [S+"graph_util.hpp"],
  [("trie", S+"graph_util.hpp")])
p("B23", "Minimal-width computations are exact",
  "For every 64-bit value the computed number of bits, bytes or k-bit units is the smallest positive count whose capacity covers the value, the computation terminates, and the level split chosen for a list of values is a list of positive widths summing to the bit width of the largest value with at most the allowed number of levels.",
  ["inputs"], "all 64-bit values and unit widths 1..64, all value lists",
  "No direct test; values with the top bit set and exact powers of the unit are not sampled.",
  [H+"calc.hpp"],
  [("unit count", H+"calc.hpp:SizeFitsInUnits"), ("list split", H+"calc.hpp:SizeFitsAsList/split_positions_optimized_for_dac")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
