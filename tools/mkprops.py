#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
H = "include/sim_ds/"
S = H + "string_util/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

SER = [H+"basic.hpp", H+"BitVector.hpp", H+"SuccinctBitVector.hpp", H+"FitVector.hpp", H+"DacVector.hpp",
       H+"MultiBitVector.hpp", H+"MultipleVector.hpp", H+"WaveletTree.hpp", S+"Samc.hpp", S+"SuffixArray.hpp"]

p("C01", "A saved structure loads back as itself, whatever the stream and target",
  "Saving any serialisable structure and loading the bytes back, however the streams split the transfer, gives a structure that answers every query as the original did and saves to the same bytes. This holds when the load goes into an object that already held other data, and loading reads exactly the bytes that saving wrote, so structures of different kinds written one after another into one stream all come back.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "every structure content (including empty, size exactly at word/block boundaries, width 64), every sequence of structures in one stream, every fragmentation of reads and writes, fresh and previously used load targets",
  "The tests save and load at most one object of a few kinds into a fresh target through an fstream/stringstream; they sample no fragmentation, no used targets (where stale state survives) and no back-to-back framing.",
  SER,
  [("read_val/read_vec and write_val/write_vec length-prefixed framing", H+"basic.hpp"),
   ("Read/Write, LoadFrom/StoreTo and istream constructors of each structure", H+"*.hpp")],
  [("num_layers_, layers_, paths_", "what a DacVector load must replace entirely", H+"DacVector.hpp"),
   ("element_table_", "what a MultipleVector load must replace entirely", H+"MultipleVector.hpp"),
   ("bv_list_", "one bit vector per inner node; count depends on the height", H+"WaveletTree.hpp")],
  ["public accessors of the loaded object", "bytes produced by saving it again", "stream position after the load"])

p("C02", "A cut-off or failing load is never silent and never destructive",
  "If the stream ends early, fails or throws while a structure is being loaded, or memory runs out, the caller sees a failed stream or an exception instead of a silently wrong structure, within bounded work and with memory in proportion to the bytes really stored. Afterwards the target can still be destroyed, or loaded again from a good stream and then answers as the saved structure did; and from a log of structures cut at any byte every structure stored whole before the cut is recovered.",
  ["crash_points", "fault_sequences", "inputs"],
  "every prefix length of every saved image (a crash while it was being written), every byte at which the stream fails or throws, every allocation that may fail during the load, streams with and without exceptions enabled",
  "No test loads a short or failing stream. An uninitialised length read after EOF works or explodes depending on stack garbage, so a sampled run can pass by luck.",
  SER,
  [("read_val returns a defined value on short input; stream state carries the error", H+"basic.hpp"),
   ("loads replace members wholesale, so a later good load repairs a failed one", H+"*.hpp")],
  [("stream state", "the only error channel of a load", H+"basic.hpp")],
  ["stream state / exception after load", "size of allocation requests", "second load into the same target"])

p("C03", "A failed save is reported and leaves the object and written prefix intact",
  "If the output refuses bytes, fails or throws while a structure is being saved, or memory runs out, the caller can see it on the stream or as an exception, and the bytes that were accepted are exactly the beginning of the image a fault-free save produces. The object itself is unchanged: it answers as before and a later save to a good stream writes the full, identical image.",
  ["fault_sequences", "crash_points", "inputs"],
  "every capacity at which the device becomes full, every byte at which the sink throws, every failing allocation inside a save, repeated saves, all serialisable structures",
  "Tests only save to healthy streams; a writer that swallowed the error, wrote fields out of order or mutated state on the way would pass them.",
  SER,
  [("write_val/write_vec write straight to the stream and leave its state visible", H+"basic.hpp"),
   ("Write/StoreTo are const", H+"*.hpp")],
  [], ["stream state / exception after save", "bytes accepted by the sink", "object answers afterwards"])

p("C04", "Growable sequences keep exactly the stored values through any history",
  "A bit vector, packed integer vector, multi-field vector or packed small-alphabet vector returns at every position exactly the value last stored there (for values that fit the element), through any history of appends, writes, fills, resizes, reservations, copies and moves. When an operation fails for lack of memory the sequence keeps its previous contents and size and goes on working.",
  ["histories", "fault_sequences", "inputs"],
  "every operation history, every element width 1..64 and field layout, sizes around word boundaries, an allocation failure at any allocation of any operation",
  "Tests build each container once from a vector and read it back; no test mixes operations, shrinks and regrows, or fails an allocation.",
  [H+"BitVector.hpp", H+"BitReference.hpp", H+"FitVector.hpp", H+"BitsReference.hpp", H+"MultipleVector.hpp", H+"MultiBitVector.hpp", H+"bit_util.hpp"],
  [("word/offset addressing and masks", H+"BitsReference.hpp"), ("_fill/_resize clear stale bits", H+"BitVector.hpp"),
   ("storage is resized before the size changes", H+"FitVector.hpp")],
  [("actual_size_/storage_", "bit count and words", H+"BitVector.hpp"), ("bits_per_element_/mask_", "element width", H+"FitVector.hpp")],
  ["operator[], at, front, back, iteration, size", "get/get_at/nested_element of the multi-field vector"])

p("C05", "The compact hash table is a map through any history, growth and failure",
  "At every point of any history of insertions, overwrites, removals, lookups and growth, a key lookup returns the value last set for that key, and reports absence exactly for keys never set or removed since; the reported number of entries agrees. An operation that fails for lack of memory changes nothing, and every operation finishes in a bounded number of steps, also when the table is full or was created at its smallest size.",
  ["histories", "fault_sequences", "configurations", "inputs"],
  "every operation history over every key width and table size, clustered and wrapping probe sequences, removals in the middle of a cluster, an allocation failure during growth",
  "Tests insert a batch of keys and read them back; removals inside clusters, wrap-around, growth from the smallest table and failed growth are never run.",
  [H+"CHT.hpp", H+"BijectiveHash.hpp", H+"FitVector.hpp", H+"BitVector.hpp"],
  [("bidirectional probing with virgin/change/occupancy bits", H+"CHT.hpp"), ("invertible hash: quotient stored, key rebuilt", H+"BijectiveHash.hpp"),
   ("growth re-inserts every entry into a new table", H+"CHT.hpp")],
  [("quotient table and cluster bits", "which bucket each stored quotient belongs to", H+"CHT.hpp")],
  ["get/set/erase results, size"])

p("C06", "The compact dynamic rewritable array returns the last written value",
  "Every position of the compact rewritable array, fixed-size or growable, always reads as the value last written there or its initial value, through any sequence of writes that widen or narrow the stored value, of appends, and of growth. An operation that fails for lack of memory leaves every position readable with its old value (the failed write's own position may hold the old or the new value).",
  ["histories", "fault_sequences", "inputs"],
  "every write/append history, every value width up to 64 bits, writes that move an element between widths repeatedly, an allocation failure inside any write or append",
  "The tests write each position once; the interesting transitions (wide to narrow to wide, satellite removal, growth with satellites, failed satellite insertion) are never sampled.",
  [H+"CDRWArray.hpp", H+"CHT.hpp", H+"FitVector.hpp"],
  [("bit width per element in a packed array, payload in a satellite table per width", H+"CDRWArray.hpp")],
  [("satellite tables", "high part of the values by width", H+"CDRWArray.hpp")],
  ["get / operator[] of every position, size"])

p("C07", "The trie store is a keyed map and its traversals visit each prefix once",
  "After any history of insertions the trie finds exactly the inserted keys, each with the value that insertion gave it (a key inserted again keeps one entry), and depth-first and breadth-first walks visit every distinct prefix of the keys exactly once, report exactly the inserted keys as complete, and follow their order (children contiguous under a parent, levels non-decreasing). A callback that throws, or an insertion that fails for lack of memory, leaves the trie holding exactly what it held before.",
  ["histories", "fault_sequences", "inputs"],
  "every insertion history over nested, shared-prefix and empty-prefix keys, repeated keys, a throwing visitor at any visit, an allocation failure at any allocation of an insertion",
  "Tests insert a fixed word list once and look it up; visitor exceptions and failed insertions are never exercised.",
  [S+"graph_util.hpp"],
  [("nodes appended before they become reachable", S+"graph_util.hpp"), ("explicit queue / recursion for traversal", S+"graph_util.hpp")],
  [("node storage and item storage", "edges and values", S+"graph_util.hpp")],
  ["insert/traverse results", "sequence of visitor calls"])

p("C08", "The heap always yields its extreme element and conserves its contents",
  "Through any interleaving of pushes and pops, starting from any initial contents, in the smallest-first and the largest-first form, the heap's top is an extreme element of what it holds and successive pops come out in order; the multiset pushed equals the multiset popped plus what remains. A push that fails for lack of memory changes nothing.",
  ["histories", "fault_sequences", "inputs"],
  "every push/pop history, duplicates, both orders, an allocation failure at any push",
  "The existing test drains a heap built once; pushes after pops and failed pushes are not sampled.",
  [H+"Heap.hpp"], [("sift up/down over an implicit binary tree", H+"Heap.hpp")], [("heap_", "implicit binary tree", H+"Heap.hpp")],
  ["top, pop order, size"])

p("C09", "Initialisable arrays read as written or filled, whatever memory held before",
  "An array with constant-time initialisation reads at every position as the value last written there since the last fill, else the last fill value (or the initial value), for every history of writes and fills and whatever garbage the underlying memory held, including memory that mimics the array's own bookkeeping or its earlier contents.",
  ["histories", "inputs", "fault_sequences"],
  "every write/fill history, every array size from the smallest, both implementations, arbitrary prior memory contents including adversarial replicas of live bookkeeping",
  "Fresh memory in a test process is nearly always zero, so a broken chain check passes; only chosen stale contents expose it.",
  [H+"InitializableArray.hpp"],
  [("stack of written positions cross-checked with back pointers", H+"InitializableArray.hpp"), ("in-place block chains (conversion/relocation of pairs)", H+"InitializableArray.hpp")],
  [("block boundary", "splits written-chained and unchained blocks", H+"InitializableArray.hpp")],
  ["operator[] / get / iteration of every position after every operation"])

p("C10", "Heap sort sorts, and an interrupted sort loses or invents nothing",
  "Sorting any range with any strict weak order leaves exactly the same elements in non-decreasing order and touches nothing outside the range, in a bounded number of comparisons. If the comparison throws at any point, the range still holds exactly the original elements in some order.",
  ["inputs", "fault_sequences"],
  "every range content and length, duplicates, sub-ranges, a throw at any comparison",
  "The test sorts one random vector; no test interrupts a sort or checks neighbours of a sub-range.",
  [H+"sort.hpp", H+"Heap.hpp"], [("in-place swaps only", H+"sort.hpp")], [], ["range contents after return or throw"])

p("C11", "Bit-vector rank, select and access are right for any number of readers",
  "For every bit vector content, rank(i) is the number of set bits before i (its complement counts the clear bits), select(k) is the position of the k-th set bit, and access returns the stored bit; the small-alphabet vector and the wavelet tree return the stored symbol and, as rank, how many equal symbols precede it. Any number of threads may ask one shared structure at the same time, in any interleaving and in builds for any instruction set, and each gets that answer.",
  ["schedules", "inputs", "configurations"],
  "every content and size (dense, sparse, sizes around 64/512-bit boundaries, empty and full words), every query, every interleaving of const queries from several threads, portable and native-instruction builds",
  "Tests are single-threaded, use one random density and build without native instructions; an interleaving-dependent query (hidden mutable state) cannot be seen by them.",
  [H+"SuccinctBitVector.hpp", H+"BitVector.hpp", H+"MultiBitVector.hpp", H+"WaveletTree.hpp", H+"bit_util.hpp"],
  [("two-level counts built once, queries are const and keep no state", H+"SuccinctBitVector.hpp"), ("broadword fallbacks equal to native instructions", H+"bit_util.hpp")],
  [("basic_block_, select_tips_", "precomputed counts and select samples", H+"SuccinctBitVector.hpp"), ("rank_tips_", "per-symbol counts", H+"MultiBitVector.hpp")],
  ["return value of every query"])

p("C12", "Packed integer sequences give every reader the stored integers",
  "A packed integer vector, variable-length (directly addressable code) vector or multi-field vector built from a list of integers returns each integer at its index, and its size and iteration match the list, for every list and every choice of layer widths. Any number of threads may read one shared sequence at the same time, in any interleaving, and each sees those values.",
  ["schedules", "inputs", "configurations"],
  "every list (all-zero, single huge value, up to 64-bit values, skewed widths), explicit and optimised layer widths, every interleaving of readers",
  "Tests use one random list below 2^32 and a single thread.",
  [H+"FitVector.hpp", H+"BitsReference.hpp", H+"DacVector.hpp", H+"MultipleVector.hpp", H+"calc.hpp", H+"SuccinctBitVector.hpp"],
  [("layer split chosen by cost, path bits say whether a value continues", H+"DacVector.hpp"), ("straddling reads over two words", H+"BitsReference.hpp")],
  [("layers_, paths_", "digits of the values and continuation bits", H+"DacVector.hpp")],
  ["operator[], at, front/back, iteration, size, depth"])

p("C13", "Static dictionaries accept exactly their keys and number them uniquely",
  "The compiled string-set automaton accepts exactly the strings it was built from, and its dictionary form gives each key a distinct number in 0..n-1 from which the same key is restored, while every other string is reported absent. This holds for every sorted set of non-empty strings over non-reserved bytes and for any number of threads querying one shared dictionary in any interleaving.",
  ["schedules", "inputs"],
  "every key set (prefixes of each other, single key, long keys, all bytes 1..254), every query string including near-misses, proper prefixes, extensions and strings with foreign bytes, every interleaving of readers",
  "Tests load one word list and mostly query members from one thread.",
  [S+"Samc.hpp", S+"graph_util.hpp"],
  [("per-depth code table and check array with disjoint offsets", S+"Samc.hpp"), ("leaf counts give the numbering", S+"Samc.hpp")],
  [("head_, storage_, code_table_", "automaton arrays", S+"Samc.hpp")],
  ["accept / lookup / access results"])

p("C14", "Pattern searches report exactly the occurrences, shared or not",
  "Every substring-search algorithm, for every text and non-empty pattern, reports each occurrence of the pattern in the text and nothing else, whether the text is empty, shorter than the pattern, repetitive or holds any byte value; the factor oracle accepts every substring of its text and no string longer than the text or of full length but different. One searcher may be shared by any number of threads, in any interleaving, with the same answers.",
  ["schedules", "inputs"],
  "every text and pattern over every byte alphabet, periodic and overlapping patterns, patterns given as a view into a larger buffer, every interleaving of searches on one shared searcher",
  "Tests search one natural-language style text with a few patterns from one thread; the shift tables of the skipping algorithms are right on most inputs even when wrong on periodic ones.",
  [S+"PatternMatching.hpp", S+"FactorOracle.hpp"],
  [("precomputed shift/failure tables, state-free matchers", S+"PatternMatching.hpp"), ("supply links of the oracle", S+"FactorOracle.hpp")],
  [("shift and failure tables", "how far a mismatch may advance", S+"PatternMatching.hpp")],
  ["the list of reported positions", "accept() of the oracle"])

p("C15", "Separate objects never influence each other across threads",
  "Two distinct objects, also when one was copied or moved from the other, built from it or loaded from the same bytes, share no state: any operations on one, by any thread at any time, leave every answer of the other unchanged, and threads each working on their own objects all get the results they would get alone.",
  ["schedules", "histories"],
  "every assignment of objects to threads, every interleaving of builds, updates, saves, loads and queries on different objects, copies taken at any moment of a history",
  "Hidden sharing (a static scratch buffer or cache, a shallow copy, a view into a temporary) only shows when two objects are active at once; the tests use one object at a time in one thread.",
  [H+"BitVector.hpp", H+"FitVector.hpp", H+"CHT.hpp", H+"CDRWArray.hpp", H+"DacVector.hpp", H+"SuccinctBitVector.hpp", H+"WaveletTree.hpp", H+"Heap.hpp",
   S+"PatternMatching.hpp", S+"Samc.hpp", S+"SuffixArray.hpp", S+"FactorOracle.hpp", S+"graph_util.hpp"],
  [("value members only, no globals", H+"*.hpp")], [],
  ["answers of every object after operations on the others"])

p("C16", "Builders finish whole or fail clean under memory exhaustion",
  "Building any of the static structures either completes, and the result answers by its definition (the suffix array lists all suffixes in sorted order with correct common-prefix lengths, a dictionary holds its keys, a rank structure counts), or memory runs out and the build reports it by an exception, having released everything it took. The inputs are untouched and building again with memory available succeeds.",
  ["fault_sequences", "inputs"],
  "every allocation of every build failing once or from then on, every structure, any input",
  "No test fails an allocation; a leak, a swallowed exception or a half-built object in an error path is invisible to them.",
  [S+"SuffixArray.hpp", S+"Samc.hpp", S+"FactorOracle.hpp", S+"PatternMatching.hpp", H+"DacVector.hpp", H+"WaveletTree.hpp", H+"SuccinctBitVector.hpp", H+"MultiBitVector.hpp", H+"FitVector.hpp", H+"calc.hpp"],
  [("RAII ownership in every builder", H+"*.hpp"), ("induced sorting of suffixes and LCP construction", S+"SuffixArray.hpp")],
  [], ["exception seen by the caller", "blocks still allocated afterwards", "answers of the rebuilt structure"])

# --- not claimed: no schedule, fault, clock or multi-party behaviour for them to depend on
p("C17", "Word-level bit operations equal their definitions for every 64-bit input",
  "Population counts, bit selection, leading/trailing zero counts, masks, reversals and the 256-bit helpers return what their definitions say for every input word, and the portable and native versions agree.",
  ["inputs", "configurations"], "all 64-bit words and positions",
  "Tests sample a few words; there are 2^64.",
  [H+"bit_util.hpp", H+"bit_util256.hpp"], [("broadword arithmetic and intrinsics", H+"bit_util.hpp")], [], ["return values"])
p("C18", "The bijective hash is a permutation of its key space",
  "For every key width and multiplier the hash maps the key space one-to-one onto itself and its inverse restores every key.",
  ["inputs", "configurations"], "all keys of all widths", "Tests sample keys of one width.",
  [H+"BijectiveHash.hpp"], [("xor-shift and modular multiplication by an odd constant with a computed inverse", H+"BijectiveHash.hpp")], [], ["hash/inverse results"])
p("C19", "The automatic layer split of the variable-length vector is space optimal",
  "The layer widths chosen automatically give a total size no larger than any other split with at most the maximum number of layers.",
  ["inputs"], "all value distributions", "Tests never compare against another split.",
  [H+"calc.hpp", H+"DacVector.hpp"], [("dynamic program over bit positions", H+"calc.hpp")], [], ["chosen widths, size_in_bytes"])
p("C20", "Size accounting and constant-time claims hold",
  "size_in_bytes equals the bytes a save writes, and rank, select, access and array initialisation cost constant (or stated) time irrespective of the size of the structure.",
  ["inputs"], "all structures and sizes", "Tests do not measure.",
  [H+"SuccinctBitVector.hpp", H+"InitializableArray.hpp"], [("precomputed directories", H+"SuccinctBitVector.hpp")], [], ["size_in_bytes, running time"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
