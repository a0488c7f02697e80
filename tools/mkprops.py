import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["public API"]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
B="src/bloom/bloom_filter.rs";PB="src/bloom/partitioned_bloom_filter.rs";SB="src/bloom/scalable_bloom_filter.rs";DD="src/bloom/dd_bloom_filter.rs"
CU="src/cuckoo/cuckoo_filter.rs";SC="src/cuckoo/scalable_cuckoo_filter.rs";Q="src/quotient.rs";CM="src/count_min_sketch.rs";H="src/hyperloglog.rs"
MH="src/similarity/min_hash.rs";SH="src/similarity/sim_hash.rs";SM="src/similarity/mod.rs";U="src/util.rs";BV="src/bit_vec.rs";BS="src/bitstring_vec.rs"
HI=["histories","inputs","configurations"]
p("C01","Bloom filters never forget an inserted item",
 "Once an item has been inserted into a BloomFilter, a PartitionedBloomFilter or a ScalableBloomFilter, contains() answers true for it after every later operation until clear() is called. This holds for every sizing, every pair of hash builders, every item type, any number of further insertions (far beyond the design load) and, for the scalable filter, any number of growth steps.",
 HI,"all insert histories, item types, constructors/sizings, hash builders and growth chains",
 "The tests insert one or two strings into a few fixed filters; no test inserts enough to grow a scalable filter more than a few levels, or uses weak or custom hashers, tiny/huge bit counts, or overload.",
 [B,PB,SB,BV,U],[("insert sets exactly the bits contains reads","BloomFilter::insert/contains, PartitionedBloomFilter::insert/contains"),("every level is consulted","ScalableBloomFilter::contains/try_grow")],
 [("bit_vec","set bits, only ever set between clears",B),("filters","chain of levels",SB)])
p("C02","Cuckoo filter is an exact set up to indistinguishable items, even overfull",
 "A CuckooFilter answers contains(x)=true exactly when some item it cannot distinguish from x (same fingerprint and same candidate buckets, i.e. a fresh identical filter holding only the one reports the other) has been inserted and not removed since; removing an item, present or absent, never changes the answer for a distinguishable item. len()+extra_items_len() always equals the number of distinguishable items held, and all of this stays true when the filter overflows and relocation fails.",
 HI,"all insert/remove/contains histories below, at and beyond capacity, all fingerprint widths, bucket sizes and relocation choices",
 "Tests insert and remove a handful of items and one overflow with fixed seeds; relocation is randomised, so loss of an evicted fingerprint, a wrong alternate bucket or a bad overflow record needs long histories at high load and an oracle for legitimate collisions.",
 [CU,BS],[("partial-key relocation keeps a fingerprint in one of its two buckets","CuckooFilter::insert"),("overflow list keyed by (fingerprint, smaller bucket)","extra_items, remove_fingerprint, contains_fingerprint")],
 [("fingerprint_vec","bucket array of fingerprints",CU),("extra_items","fingerprints that could not be placed",CU)])
p("C03","Scalable cuckoo filter keeps membership and removals across growth",
 "A ScalableCuckooFilter answers true for every item inserted and not removed since, however many times it grew in between, answers false again after the item is removed (unless an indistinguishable item is held), and never lets an operation on one item change the answer for an item that no level confuses with it. len() is the number of items held over all levels.",
 HI,"all insert/remove histories over any number of growth steps, growth and tightening ratios, bucket sizes and fingerprint widths",
 "The scalable cuckoo unit tests are flaky and skipped in the baseline; they grow once or twice and never interleave removals of items living in different levels with further growth.",
 [SC,CU],[("all levels are searched and cleaned","ScalableCuckooFilter::contains/remove/insert"),("a new level when the last one overflows or is full","try_grow")],
 [("filters","chain of cuckoo filters",SC)])
p("C04","Quotient filter is exactly the set of stored fingerprints",
 "A QuotientFilter holds exactly the set of fingerprints (the low quotient_bits+remainder_bits bits of the item hash) inserted and not removed since: contains(x) is true iff x's fingerprint is in that set, len() is its size, re-inserting and removing an absent item change nothing. This holds for every interleaving of inserts and removes, at every load up to completely full, including clusters that wrap around the end of the table.",
 HI,"all insert/remove/contains/clear histories and all (quotient_bits, remainder_bits) with quotient_bits>=1, 1<=remainder_bits<=61, sum<=64",
 "One stress test removes only present items, from a full table with 48-bit remainders and no interleaved inserts; removal of absent items, of sole members of shifted runs and removes mixed with inserts at moderate load are never exercised (and were in fact broken).",
 [Q,BS],[("run/cluster metadata (occupied, continuation, shifted) maintained on shift","insert_and_shift_right, remove"),("run lookup","get_run_start, contains")],
 [("slot_vec","remainders and metadata bits",Q),("len","number of stored fingerprints",Q)])
p("C05","Membership filters meet their configured false positive rate at design load",
 "A BloomFilter, PartitionedBloomFilter, CuckooFilter or QuotientFilter built for a maximum false positive probability answers true for never-inserted items at a long-run rate not above that probability when it holds its design number of items, for independent well-distributed hash functions (a small model tolerance for rounding and double hashing aside). A filter holding nothing answers false to everything.",
 HI,"all (capacity, fpp) configurations, key distributions (sequential, clustered, random, strings) and seeds",
 "Tests only compare estimated_fpp (a formula) with a constant after a few insertions; the actual answer rate to unseen keys is never measured.",
 [B,PB,CU,Q,U],[("sizing formulas","with_hashers, from_fpp*, from_item_count*, from_entries_per_index*, from_fingerprint_bit_count*"),("enhanced double hashing","HashIter")])
p("C06","Scalable filters grow as documented and keep the compound error bound",
 "A ScalableBloomFilter adds a level exactly when its newest level is at least half full of ones, and a ScalableCuckooFilter when its newest level overflows or is full; each new level is growth_ratio times the previous size (rounded up; for cuckoo to a power-of-two number of buckets) with the false positive probability multiplied by tightening_ratio, and duplicates do not consume space. However many items are inserted, the false positive rate on unseen items stays within initial_fpp/(1-tightening_ratio).",
 HI,"all insertion histories over many growth steps, initial sizes, growth and tightening ratios",
 "Tests cross one or two growth steps with fixed seeds and never measure the compound false positive rate.",
 [SB,SC,B,CU],[("growth trigger and new level parameters","ScalableBloomFilter::try_grow, ScalableCuckooFilter::try_grow"),("insert only if no level contains the item","insert")],
 [("approximate_bits_used","lower-cost trigger, must never delay growth",SB),("filters","levels",SB)])
p("C07","estimated_fpp is a probability that tracks the real false positive rate",
 "For every filter that offers estimated_fpp(), the value is 0 when nothing is stored, always lies in [0, 1], never decreases while items are only inserted, depends only on the current contents and sizing, and agrees with the measured rate of positive answers on unseen items within the model's accuracy, at any load.",
 HI,"all insert (and remove/clear) histories, loads from empty to overfull, all constructors",
 "Tests compare the value with 0 and with an upper constant after one or two insertions.",
 [B,PB,SB,CU,SC,Q],[("estimator formulas","estimated_fpp in each filter"),("occupancy counters feeding them","BitVec::count_ones, BitstringVec::occupied_len, len")])
p("C08","Occupancy counters of the bit filters always match the contents",
 "For all six Bloom-type filters count_ones()+count_zeros()=len() after every operation, is_empty() tells whether len() is 0, and count_ones() is exactly the number of one bits behind the answers given (as probed by items that read known positions). An insertion of an item that was already reported present changes neither counter; inserting a new item into a filter that never forgets raises count_ones() by at least one and at most the number of hash functions.",
 HI,"all insert/clear/clone/serialize histories over all six filter types",
 "Counters are cached, not recounted; tests check them only after one insertion.",
 [BV,B,PB,SB,DD],[("cached one_count maintained by set/flip/clear","BitVec::set, set_all"),("sum over levels or slices","ScalableBloomFilter::count_ones, RLBSBloomFilter::count_ones")],
 [("one_count","cached population count",BV)])
p("C09","Stream filters report an item right after inserting it; forgetting is bounded",
 "In BSBloomFilter, BSSDBloomFilter and RLBSBloomFilter an item is reported present immediately after it was inserted, inserting an item already reported present changes nothing at all, and inserting a new one sets its bits and clears at most one bit per slice (BS, RLBS) or one bit in total (BSSD) first. So one insertion can only forget items that own a cleared bit, and an empty filter reports nothing.",
 HI,"all insertion streams, sizings, slice counts and internal random choices",
 "Tests insert two items once; the deletion choices are random, so damage to the just-inserted item or excess deletion needs many streams and bit-level observation.",
 [DD],[("clear before set","insert of the three filters"),("no-op when contained","contains_hashes")],
 [("bit_vec / bit_vecs","slices",DD)])
p("C10","Stream filters stay stable and accurate on unbounded streams",
 "On an unbounded stream of distinct items the fraction of set bits of every slice follows the documented replacement rule at every length: for BS (one deletion per slice) it converges to between 1/2 and 0.62 and for RLBS (load-dependent deletion) to between 0.618 and 0.76 and stays there, so they never saturate, while BSSD, with one deletion in all, fills up slowly along its own curve. Deletions are spread uniformly over all slices and positions, recent items are remembered longer than old ones, and the false positive rate on unseen items stays at the fill^k level.",
 ["histories","configurations"],"all long streams, bit counts and hash function counts",
 "Convergence is a statistical property of thousands of random replacements; tests insert two items.",
 [DD],[("uniform random deletion","gen_range over slices and positions"),("load-dependent deletion","RLBSBloomFilter::insert")])
p("C11","Count-min estimates never undercount and meet the (epsilon, delta) bound",
 "With the count-min strategy and non-negative net counts, count(x) is at least x's true count for every item, and it is exact when at least one of x's row counters is shared with no other counted item. For a sketch built by from_error(epsilon, delta), the estimate exceeds the true count by more than epsilon times the total with frequency at most delta (or about epsilon/4 if that is larger, the collision rate of double hashing on the whole row set).",
 HI,"all update streams (skewed, uniform, adversarial order, large weights), grid sizes and hash builders",
 "Tests count one or two items in an otherwise empty sketch, where any hashing is exact.",
 [CM,U],[("one counter per row, minimum over rows","CountMinSketch::insert/count, CountMinStrategy"),("sizing","from_error")],
 [("grid","row-major counters",CM)])
p("C12","Count sketches are linear: only net counts matter, and strategies are as defined",
 "A CountMinSketch is determined by the net count of each item: insertion order, splitting or merging of updates, and insert/remove pairs that cancel leave every estimate unchanged, and removing everything restores the empty sketch. Over the row counters of an item, count-min returns their minimum, count-mean their rounded average, and count-median-bias the smaller of the minimum and the lower median of the counters after subtracting each row's expected noise (rounded up), up to double rounding, for all histories whose counters, total and estimate fit 64 bits.",
 HI,"all update histories with positive and negative weights, all three strategies, all grid sizes with at least one row and (for the bias strategy) two columns",
 "Tests apply one or two updates to an empty sketch where all three strategies coincide.",
 [CM],[("linear update of counters and of the total","CountMinSketch::insert/remove"),("CountStrategy implementations","CountMinStrategy, CountMeanStrategy, CountMedianBiasStrategy")],
 [("items","net total used by the bias strategy",CM)])
p("C13","HyperLogLog estimates are accurate at every cardinality",
 "For a HyperLogLog built with error probability e (up to 0.26, i.e. 16 registers or more), len() estimates the number of distinct inserted items with a relative standard error of about e (and no worse than the documented bound up to the known small-range bias of the algorithm) at every cardinality from 0 through the linear-counting, mid and very large ranges, and is always finite and non-negative. Duplicates never change the estimate.",
 HI,"all error settings, cardinalities (simulated up to 2^60 through crafted hashes), duplicate patterns and seeds",
 "Tests insert at most four distinct items, where only linear counting is used (the harmonic-mean estimator was in fact wrong and its results infinite).",
 [H],[("harmonic mean estimator with linear counting and large-range correction","get_estimate, len"),("register count from error","with_hasher, get_alpha")],
 [("registers","max rank per substream",H)])
p("C14","HyperLogLog is an idempotent, order-free union sketch",
 "The state of a HyperLogLog depends only on the set of distinct items inserted, and merge() yields exactly the sketch that inserting both item sets into one would give: it is commutative, associative, idempotent, has the empty sketch as identity, leaves the argument untouched and never lowers the estimate (up to the small hand-over step between linear counting and the raw estimator). Merging sketches with different precisions (numbers of registers) or hash builders panics and does not silently corrupt the receiver.",
 HI,"all item sets, insertion orders, duplicate patterns and merge trees",
 "Tests merge two three-item sketches once.",
 [H],[("register-wise maximum","merge, insert")],[("registers","max rank per substream",H)])
p("C15","MinHash similarity is a symmetric, order-free estimate of Jaccard similarity",
 "get_min_hashes depends only on the set of items (not on order or repetition), the hashes of a union are the element-wise minimum of the hashes, similarity is symmetric, 1 for equal sets and the fraction of agreeing hashes otherwise, always in [0, 1]. Its expected value is the Jaccard similarity of the two sets, with error shrinking as one over the square root of the number of hash functions.",
 HI,"all pairs of non-empty item sets, hash function counts and hash builders",
 "Tests compare a few fixed strings once.",
 [MH,U],[("element-wise minimum over hash sequences","get_min_hashes"),("agreement ratio","get_similarity_from_hashes")])
p("C16","SimHash is a per-bit majority vote and report_similarities is exact",
 "get_sim_hash depends only on the multiset of items and each bit is the majority vote of the item hashes' bits (a tie gives 1), so hashes of similar multisets are close in Hamming distance. report_similarities returns each unordered pair (i<j) at most once, and returns exactly the pairs that appear together in a window of the given size in the sorted order of some rotation of the hashes; it never panics for fewer inputs than the window, identical inputs are always reported when adjacent in such a window.",
 HI,"all item multisets, numbers of inputs (including fewer than the window), window sizes > 1 and hash builders",
 "Tests use two or three strings and one window size.",
 [SH,U],[("vote counters","get_sim_hash"),("64 rotations, sort, sliding window","report_similarities")])
p("C17","Jaccard similarity and shingles are computed exactly",
 "get_jaccard_similarity equals |A∩B|/|A∪B| over distinct items for every pair of iterators (not both empty), symmetric and independent of order and repetition. ShingleIterator yields exactly the contiguous windows of token_count tokens in order: len-token_count+1 of them, or none when there are fewer tokens than that, and then keeps returning None.",
 ["inputs"],"all token lists, window sizes >= 1 and item multisets",
 "Tests check one sentence; token counts at and above the number of tokens are not tried (and panicked).",
 [SM],[("sliding window","ShingleIterator::next"),("set algebra","get_jaccard_similarity")])
p("C18","Serialized structures come back observably identical and keep working",
 "With the serde feature, serializing any structure of the crate at any point of its life (bincode or a self-describing format such as JSON) and deserializing it yields a structure with identical answers, counters, sizing, capacity, estimates and hashers, and serializing that again gives the same bytes. Continuing the same history on the original and the copy keeps them in agreement, up to internal random choices where the structure uses them.",
 HI,"all structure types, all reachable states (empty, grown, overfull, after removals and clear), both kinds of formats",
 "One short bincode round trip per type on a filter with at most one item, and no operation after deserialization.",
 [B,PB,SB,DD,CU,SC,Q,CM,H,MH,SH,U,BV,BS],[("derived Serialize/Deserialize","all types"),("re-seeded rng on deserialization","serde(skip, default) fields")])
p("C19","clear() is indistinguishable from a fresh structure",
 "After clear(), every structure that has it is observably equal to a newly constructed one with the same parameters and hash builders: nothing is contained, counters and estimates are back to zero, and sizing (including the level structure of scalable filters) is the initial one. Running any history after clear() gives the same answers as running it on the fresh structure, up to internal random choices.",
 HI,"all histories before and after clear, all structure types and configurations, repeated clears",
 "Tests clear a filter with one or two items and query those items only; leftovers in overflow lists, cached counters or growth accounting would not show.",
 [B,PB,SB,DD,CU,SC,Q,CM,H,BV,BS],[("clear implementations","clear in each type"),("counter resets","BitVec::set_all, BitstringVec::clear")])
p("C20","Clones are equal and fully independent",
 "clone() of any structure (and clone_from() onto any other structure of the type) gives a structure with the same observable state; after that, operations on either never affect the other. Continuing both with the same operations keeps them in agreement, including the internal random choices, which the clone copies (levels a scalable cuckoo filter makes later draw their own).",
 HI,"all structure types, reachable states and histories after the clone, both clone and clone_from",
 "The tests hardly use clone; clone_from is not tested on used filters.",
 [B,PB,SB,DD,CU,SC,Q,CM,H,MH,SH,BV,BS],[("derived Clone and hand-written clone_from","BitVec::clone_from, #[derive(Clone)]")])
p("C21","Queries do not modify anything and shared concurrent reads are safe",
 "Read-only operations (contains, len, is_empty, count, estimated_fpp, counters, sizing, hashers, similarity and hash queries) leave the structure's complete state unchanged, so any number of them in any order can be interleaved with updates without changing results. Every structure is Send and Sync when its hash builder and items are, and concurrent readers get the same answers as a single one without data races.",
 HI+["schedules"],"all query sequences in all states, and all schedules of concurrent readers",
 "Tests never check that a query has no effect, and are single-threaded.",
 [B,PB,SB,DD,CU,SC,Q,CM,H,MH,SH],[("&self receivers, no interior mutability","query methods")])
p("C22","Behaviour is a function of hash builders, parameters and history only",
 "Two structures built with equal parameters and equal hash builders and given the same history answer every query alike (the randomised structures up to their documented random choices); the seeded default builder is deterministic across processes, differs between seeds, and from_entropy differs between calls, so every default-built structure has its own, pairwise different builders. An item and its borrowed form (String/str, Vec/slice, Box) are interchangeable, and hashers() returns builders that rebuild an equivalent structure.",
 HI,"all structure types, seeds, item types with borrowed forms and histories",
 "Tests use one or two fixed seeds and never compare instances, processes or borrowed forms systematically.",
 [U,B,PB,SB,DD,CU,SC,Q,CM,H,MH,SH],[("item hashing through BuildHasher","util::hash, DoubleHasher::hash"),("SipHasherBuilder seeds","SipHasherBuilder::from_seed/from_entropy/PartialEq")])
p("C23","Constructors size structures as documented and reject only documented input",
 "Every constructor accepts all arguments its documentation allows (as far as 64-bit hashes and memory can meet them) and panics on those it says it rejects; the resulting structure is large enough for the request: at least the requested items or bits, the documented number of hash functions, slots, rows, columns or registers, and its capacity accessors report its real number of slots. Memory actually allocated stays proportional to the documented size (bits, slots times slot width, counters or registers).",
 ["configurations","inputs"],"all documented constructor arguments over several orders of magnitude",
 "Tests construct a dozen fixed configurations and never look at memory use; legal extremes (1-bit fingerprints, fpp near 1, tiny filters) panicked.",
 [B,PB,SB,DD,CU,SC,Q,CM,H,MH],[("sizing formulas and argument assertions","all constructors"),("size accessors","len, capacity, bucket_len, bit_count, rows, cols, hasher_count")])
p("C24","Packed containers behave exactly like plain vectors",
 "The packed bit vector and packed bit-string vector that back the filters behave, for every sequence of their operations and every element width up to 64 bits, exactly like an ordinary vector of booleans or of integers that fit that width: same elements, lengths, iteration, equality and serialized round trip. Their cached population counts always equal a recount, and no operation disturbs neighbouring elements or leaves hidden state that a later operation exposes.",
 HI,"all operation sequences, lengths around block boundaries and element widths 1..64",
 "Unit tests run each operation once on short vectors; combinations such as truncate/flip_all/clone_from followed by push/pop/count exposed stale counts and bits.",
 [BV,BS],[("block addressing and masking","BitVec::set/get/apply, BitstringVec::set/get"),("cached counts","one_count, occupied_len")],
 [("one_count","cached ones",BV),("occupied_len","cached non-zero elements",BS)],["crate-internal API through a guarded re-export"],"cfg(verif_hooks): re-export of the two internal container types")
p("C25","Valid use never panics, overflows, hangs or triggers undefined behaviour",
 "No sequence of valid operations on any structure, with documented arguments, any item values and any hash builder (including constant, weak or extreme hashes), panics, overflows an integer, reads out of bounds, runs without end, requests absurd amounts of memory or executes undefined behaviour. The only failures are the documented panics.",
 HI,"all histories of valid operations on all structures, including degenerate sizes, overload and adversarial hash values",
 "Tests use good hash functions and small loads; block-boundary, wrap-around, full-table and extreme-hash paths need hostile workloads under checked arithmetic, sanitizers and Miri.",
 [B,PB,SB,DD,CU,SC,Q,CM,H,MH,SH,SM,U,BV,BS],[("wrapping hash arithmetic","HashIter::next"),("index reduction modulo size","insert/contains of all structures"),("bounded relocation","max_kicks")])
p("C26","Equality follows contents and configuration; Debug output is harmless",
 "BloomFilter and CuckooFilter compare equal exactly when they have the same sizing, equal hash builders and the same stored contents: equal filters answer every query alike and stay equal under the same operations (cuckoo: while no displacement draws random numbers), clones, deserialized copies and cleared filters compared with new ones are equal, and a difference in sizing, in a hash builder or in one distinguishable item makes them unequal. SipHasherBuilders are equal exactly when built from the same seed. Formatting any structure with Debug works in every state and changes nothing.",
 HI,"all pairs of reachable states, sizings and hash builders",
 "Tests compare one pair of equal filters; unequal ones and formatting are not tried.",
 [B,CU,Q,U,BV,BS],[("derived PartialEq","BloomFilter, BitVec, BitstringVec"),("hand-written PartialEq","CuckooFilter::eq, SipHasherBuilder::eq"),("hand-written Debug","QuotientFilter, SipHasherBuilder")])
p("C27","Seeded structures and their serialized data are portable across platforms",
 "For items whose Hash feeds the same bytes everywhere (strings, raw-byte wrappers as the README recommends), structures with seeded builders have the same sizing, answers and serialized data on 32-bit and on big-endian platforms as on x86_64, and data written on one is read back with the same answers on another. SipHasherBuilder::from_seed is SipHash-2-4 keyed by the two words, and the i-th derived hash of an item is a+i*b+i(i-1)(i-2)/6 modulo 2^64 (enhanced double hashing).",
 HI+["configurations"],"all structures, seeds, portable items and histories, on 32-bit, 64-bit, little- and big-endian targets",
 "Tests run on one platform and never fix the hash values that stored data depends on.",
 [U,B,PB,SB,DD,CU,SC,Q,CM,H,MH,SH,BV,BS],[("hash arithmetic","util::hash, HashIter::next"),("reduction before narrowing to usize","hash % len as u64"),("sizing in f64 and usize","constructors")])
p("C28","Cuckoo filters fill up to the cuckoo threshold before they overflow",
 "With well-distributed hash builders and fingerprints wide enough to tell items apart, a CuckooFilter displaces items so that it fills most of its slots before the first extra item appears: typically more than 0.36, 0.78, 0.88, 0.93 and 0.96 of them with 1, 2, 3, 4 and 8 or more entries per bucket. Below that load it holds items without overflowing however often they are replaced by others, and no item is lost.",
 HI,"all sizings, builders, insertion orders and replacement histories",
 "Tests fill filters of one or two slots; a displacement that stops early or only tries one bucket passes them.",
 [CU,BS],[("bounded displacement","CuckooFilter::insert, max_kicks"),("partial-key buckets","get_fingerprint_and_indexes"),("removal frees the slot","remove_fingerprint")])
p("C29","A failed operation changes nothing and leaves the structure usable",
 "An insertion, removal or query that panics because the item's Hash panics, an insertion into a completely full QuotientFilter and a merge of HyperLogLogs with different precisions or hash builders leave every answer, counter and the serialized state of the structure as they were, and all later operations behave as if the failed one had not been tried.",
 HI+["fault_sequences"],"all structures, reachable states, and points of failure inside an operation (before its first change)",
 "No test looks at a structure after a panic; a counter updated before the item is hashed stays wrong for ever.",
 [B,PB,SB,DD,CU,SC,Q,CM,H,MH,SH],[("hashing before the first change","insert and remove of every structure"),("full check","QuotientFilter::insert"),("compatibility check","HyperLogLog::merge")])
p("C30","Filters and sketches depend on what they hold, not on how it got there",
 "BloomFilter, PartitionedBloomFilter and HyperLogLog are functions of the set of items inserted since the last clear, CountMinSketch of their net counts and QuotientFilter of the set of fingerprints held: order, repetition, cancelled or split updates, items that came and went, earlier contents before a clear and queries in between leave no trace in any answer, counter or estimate. The filter of a union answers true wherever the filter of a part does, and is no larger than its parts together.",
 HI,"all contents, and all histories leading to the same contents",
 "Tests use one insertion order each and no histories in which items leave again.",
 [B,PB,Q,CM,H,BV,BS],[("bitwise or of item positions","insert"),("sorted runs","QuotientFilter::insert/remove"),("register maximum","HyperLogLog::insert"),("counter sums","CountMinSketch::insert")])
p("C31","Memory stays as sized, whatever the history",
 "What a structure holds is fixed by its constructor: no number of insertions, removals, queries, clears or refills makes it hold more, except for the documented growth: the filters a scalable structure adds (their sizes follow from the reported bits or capacity) and the reported extra items of a cuckoo filter. No operation takes a multiple of the structure's size on the way, queries retain nothing, clones and deserialized copies are about as large as the original, clear() releases the levels added, and dropping a structure returns everything.",
 HI,"all structures, sizings, hash builders and histories of any length",
 "No test looks at memory; a buffer that grows with the stream defeats the purpose of the structures and no answer shows it.",
 [B,PB,SB,DD,CU,SC,Q,CM,H,MH,SH,BV,BS],[("fixed-size storage","constructors, BitVec, BitstringVec, registers, items"),("levels","ScalableBloomFilter/ScalableCuckooFilter insert and clear"),("overflow list","CuckooFilter::extra_items")])
p("C32","An operation costs the same however much is stored or was seen",
 "Inserting, querying and removing an item cost time independent of the size of the structure, of the length of the stream and of earlier churn, fills and clears (at equal load, scalable filters per level); reading sizes and estimates costs at most time linear in the structure, and cloning, overwriting and clearing at most time linear in its size. The similarity functions cost time linear in their input (pairs of documents excepted), per item.",
 HI+["configurations"],"all structures, sizes, streams and operations",
 "Tests are too small for a scan over the table or over earlier items to show, and no answer depends on it.",
 [B,PB,SB,DD,CU,SC,Q,CM,H,MH,SH,SM,BV,BS],[("k positions per item","insert/contains"),("clusters and displacement","QuotientFilter, CuckooFilter"),("cached counts","one_count, occupied_len, len")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
