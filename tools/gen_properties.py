#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the text is this file)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Bloom filter has no false negatives",
  "For every size, number of hash functions, pair of hash builders and sequence of insertions, a Bloom filter reports every item inserted since it was built or last cleared as present, and inserting further items never makes a previously reported item disappear. An item is reported present exactly when all of its hash positions have been set by some insertion, so a cleared or new filter with at least one hash function reports nothing.",
  ["inputs", "histories", "configurations"],
  "all filter geometries, all hash functions, all items and all finite sequences of insert/clear/contains",
  "The tests insert one or two strings under two fixed SipHash keys; nothing there reaches arbitrary hash values, bit positions at block boundaries, filters whose length is not a multiple of eight, or long histories.",
  ["src/bloom/bloom_filter.rs", "src/bit_vec.rs", "src/util.rs"],
  [("insert sets the first k probe positions", "src/bloom/bloom_filter.rs:insert"),
   ("contains reads the same k probe positions", "src/bloom/bloom_filter.rs:contains"),
   ("probe sequence", "src/util.rs:HashIter::next, DoubleHasher::hash"),
   ("bit addressing", "src/bit_vec.rs:set,get,index,set_all")],
  [("bit_vec", "the bits of the filter", "src/bloom/bloom_filter.rs:BloomFilter")],
  ["BloomFilter::insert", "BloomFilter::contains", "BloomFilter::clear"])

p("C02", "Partitioned Bloom filter: no false negatives, one bit per partition",
  "A partitioned Bloom filter reports every item inserted since it was built or last cleared as present, for every geometry, pair of hash builders and insertion history. Each insertion sets exactly the item's one probe position in each of the equally sized partitions and changes no other bit, and an item is reported present exactly when its position in every partition is set.",
  ["inputs", "histories", "configurations"],
  "all partition sizes and counts, all hash functions, all items and all finite sequences of insert/clear/contains",
  "The tests insert a couple of strings under fixed keys; partition boundaries, arbitrary hash values and long histories are not reached.",
  ["src/bloom/partitioned_bloom_filter.rs", "src/bit_vec.rs", "src/util.rs"],
  [("insert sets probe i inside partition i", "src/bloom/partitioned_bloom_filter.rs:insert"),
   ("contains reads probe i inside partition i", "src/bloom/partitioned_bloom_filter.rs:contains")],
  [("bit_vec", "the bits, partition after partition", "src/bloom/partitioned_bloom_filter.rs")],
  ["PartitionedBloomFilter::insert", "PartitionedBloomFilter::contains", "PartitionedBloomFilter::clear"])

p("C03", "Scalable Bloom filter keeps every item across growth",
  "A scalable Bloom filter reports every item inserted since it was built or last cleared as present, no matter how many times it has grown in between. Inserting, and the growth an insertion may trigger, never drops, replaces or empties a filter that already holds items, and clearing returns it to a single empty filter of the initial size.",
  ["inputs", "histories", "configurations"],
  "all initial sizes, growth and tightening ratios, all hash functions and all finite sequences of insert/clear/contains, hence all growth histories",
  "The tests grow a filter once with one fixed key pair; the interleavings of growth, duplicates and membership are not enumerated.",
  ["src/bloom/scalable_bloom_filter.rs", "src/bloom/bloom_filter.rs", "src/bit_vec.rs"],
  [("insertion goes to the newest filter unless already reported", "src/bloom/scalable_bloom_filter.rs:insert"),
   ("growth appends a filter", "src/bloom/scalable_bloom_filter.rs:try_grow"),
   ("membership consults every filter", "src/bloom/scalable_bloom_filter.rs:contains")],
  [("filters", "the chain of Bloom filters, oldest first", "src/bloom/scalable_bloom_filter.rs")],
  ["ScalableBloomFilter::insert", "ScalableBloomFilter::contains", "ScalableBloomFilter::clear", "ScalableBloomFilter::filter_count"])

p("C04", "Stream Bloom filters report an item right after inserting it",
  "For each of the three stream filters (biased sampling, biased sampling with single deletion, load-balanced), whatever the history and whatever random choices the filter makes, an item is reported present immediately after it is inserted. Inserting an item that is already reported present leaves the reported membership of every item unchanged. An item is reported present exactly when its one position in every partition is set, so a new or cleared filter with at least one partition reports nothing.",
  ["inputs", "histories", "configurations"],
  "all geometries, hash functions, items, histories and all outcomes of the internal random number generator",
  "The random generator is seeded from entropy, so a test sees one random outcome per run and never the one in which the evicted position is the position just set.",
  ["src/bloom/dd_bloom_filter.rs", "src/bit_vec.rs", "src/util.rs"],
  [("evictions happen before the new bits are set", "src/bloom/dd_bloom_filter.rs:insert (three variants)"),
   ("duplicates are detected first", "src/bloom/dd_bloom_filter.rs:contains_hashes (three variants)")],
  [("bit_vec / bit_vecs", "the partitions", "src/bloom/dd_bloom_filter.rs")],
  ["BSBloomFilter::{insert,contains}", "BSSDBloomFilter::{insert,contains}", "RLBSBloomFilter::{insert,contains}"])

p("C05", "Stream Bloom filters evict no more than their algorithm allows",
  "One insertion into a biased-sampling or load-balanced stream filter clears at most one bit in each partition, and one insertion into the single-deletion filter clears at most one bit in the whole filter; the only bits it sets are the inserted item's own probe positions, one per partition. Hence an insertion changes the reported membership only of items that share an evicted position or one of the new item's positions.",
  ["inputs", "histories", "configurations"],
  "all geometries, hash functions, items, histories and all outcomes of the internal random number generator",
  "Tests look only at membership of one or two items; the number and the place of the cleared bits depend on random choices that are never fixed.",
  ["src/bloom/dd_bloom_filter.rs", "src/bit_vec.rs"],
  [("eviction loop / single eviction", "src/bloom/dd_bloom_filter.rs:insert (three variants)")],
  [("bit_vec / bit_vecs", "the partitions", "src/bloom/dd_bloom_filter.rs")],
  ["count_ones/count_zeros and contains of the three stream filters"])

p("C06", "Bloom filter bit counts are exact",
  "For every Bloom filter variant and every history, the reported number of ones is exactly the number of set bits, ones plus zeros equals the reported length, and the length never changes except that a scalable filter grows. Inserting an item already reported present changes no count in the filter that reports it, and clearing returns the number of ones to zero.",
  ["inputs", "histories", "configurations"],
  "all geometries, hash functions and all finite sequences of insert/clear on the six filter types",
  "Tests compare the counts after one or two insertions under fixed keys; collisions between probe positions, re-setting and eviction of bits are not enumerated.",
  ["src/bit_vec.rs", "src/bloom/bloom_filter.rs", "src/bloom/partitioned_bloom_filter.rs", "src/bloom/scalable_bloom_filter.rs", "src/bloom/dd_bloom_filter.rs"],
  [("incremental count of ones", "src/bit_vec.rs:set,set_all"),
   ("counts reported by the filters", "src/bloom/*.rs:count_ones,count_zeros,len,clear")],
  [("one_count", "number of set bits", "src/bit_vec.rs:BitVec")],
  ["count_ones", "count_zeros", "len", "is_empty", "clear of the six Bloom filter types"])

p("C07", "Cuckoo filter is an exact set of fingerprint classes under insertion",
  "A cuckoo filter behaves exactly as a set of classes, where an item's class is its fingerprint together with its unordered pair of candidate buckets: an item is reported present exactly when an item of its class was inserted and not removed since. Insertion adds the item's class and loses no other, however many entries are relocated, whatever the random choices, and also when relocation gives up and the displaced entry goes to the overflow list; in particular there are no false negatives.",
  ["inputs", "histories", "configurations"],
  "all capacities, entries per bucket, fingerprint widths 1..64, hash functions, histories and all random relocation choices",
  "Relocation and overflow depend on random choices and on hash collisions; the tests run one random history per run under fixed keys.",
  ["src/cuckoo/cuckoo_filter.rs", "src/bitstring_vec.rs", "src/util.rs"],
  [("candidate buckets are each other's alternate", "src/cuckoo/cuckoo_filter.rs:get_fingerprint_and_indexes"),
   ("relocation loop and overflow list", "src/cuckoo/cuckoo_filter.rs:insert"),
   ("lookup", "src/cuckoo/cuckoo_filter.rs:contains_fingerprint")],
  [("fingerprint_vec", "the table of fingerprints, zero meaning empty", "src/cuckoo/cuckoo_filter.rs"),
   ("extra_items", "overflow entries (fingerprint, smaller bucket)", "src/cuckoo/cuckoo_filter.rs")],
  ["CuckooFilter::insert", "CuckooFilter::contains"])

p("C08", "Cuckoo filter removal is exact and counts are right",
  "Removing an item from a cuckoo filter makes it reported absent and changes the reported membership of no item of a different class (fingerprint and bucket pair), whether its entry sits in either candidate bucket or in the overflow list; removing an item that is not reported present changes nothing. The table length plus the overflow length always equals the number of classes held, never exceeds what was inserted, and the capacity is the number of table entries: bucket count (a power of two) times entries per bucket, at least the requested item count.",
  ["inputs", "histories", "configurations"],
  "all capacities, entries per bucket, fingerprint widths, hash functions, random choices and all finite sequences of insert/remove/clear",
  "Which entries sit in which bucket or in the overflow list depends on random relocation; tests remove one item from a nearly empty filter.",
  ["src/cuckoo/cuckoo_filter.rs", "src/bitstring_vec.rs"],
  [("removal from both buckets and the overflow list", "src/cuckoo/cuckoo_filter.rs:remove_fingerprint"),
   ("occupied entry count", "src/bitstring_vec.rs:set,clear,occupied_len"),
   ("sizes", "src/cuckoo/cuckoo_filter.rs:constructors, capacity, bucket_len, len")],
  [("fingerprint_vec", "the table", "src/cuckoo/cuckoo_filter.rs"), ("occupied_len", "non-zero entries", "src/bitstring_vec.rs")],
  ["CuckooFilter::remove", "CuckooFilter::len", "CuckooFilter::extra_items_len", "CuckooFilter::capacity", "CuckooFilter::clear"])

p("C09", "Scalable cuckoo filter keeps every item across growth",
  "A scalable cuckoo filter reports every item inserted and not removed since it was built or last cleared as present, however often it has grown (up to the point where the tightened probability needs fingerprints wider than 64 bits and growth panics), unless a removed item collided with it; growth appends a new filter and leaves all existing entries in place. After removing an item it is reported absent, and items that collide with it in none of the filters keep their reported membership; the reported length is the total number of entries held, overflow included.",
  ["inputs", "histories", "configurations"],
  "all initial sizes, growth and tightening ratios, hash functions, random choices and all finite sequences of insert/remove/clear",
  "Growth is triggered by fullness or by random overflow; the module's own tests are listed as flaky for this reason.",
  ["src/cuckoo/scalable_cuckoo_filter.rs", "src/cuckoo/cuckoo_filter.rs"],
  [("insertion goes to the newest filter unless already reported", "src/cuckoo/scalable_cuckoo_filter.rs:insert"),
   ("growth", "src/cuckoo/scalable_cuckoo_filter.rs:try_grow"),
   ("removal from every filter", "src/cuckoo/scalable_cuckoo_filter.rs:remove")],
  [("filters", "the chain of cuckoo filters", "src/cuckoo/scalable_cuckoo_filter.rs")],
  ["ScalableCuckooFilter::{insert,contains,remove,len,clear,filter_count}"])

p("C10", "Quotient filter insertion and lookup are exact on fingerprints",
  "A quotient filter behaves exactly as a set of fingerprints, a fingerprint being the low quotient-bits plus remainder-bits of the item's hash: an item is reported present exactly when an item with the same fingerprint is in the set, whatever runs, clusters, shifts and wrap-around the table contains, up to and including a completely full table. Insertion adds exactly the item's fingerprint, inserting a fingerprint already present changes nothing, and the only insertion that panics is one of a new fingerprint into a full filter.",
  ["inputs", "histories", "configurations"],
  "all quotient and remainder widths, hash functions and all finite sequences of insert/remove/clear",
  "Correctness depends on the layout of runs and clusters, of which there are exponentially many; the tests exercise a handful of layouts by hand.",
  ["src/quotient.rs", "src/bitstring_vec.rs"],
  [("locating a run from the metadata bits", "src/quotient.rs:get_run_start"),
   ("insertion and right shift", "src/quotient.rs:insert,insert_and_shift_right"),
   ("lookup", "src/quotient.rs:contains")],
  [("slot_vec", "remainders with occupied/continuation/shifted bits", "src/quotient.rs")],
  ["QuotientFilter::insert", "QuotientFilter::contains", "QuotientFilter::len"])

p("C11", "Quotient filter removal is exact and the length is right",
  "Removing an item from a quotient filter removes exactly its fingerprint: the item is reported absent afterwards, every item with another fingerprint keeps its reported membership, and removing an item whose fingerprint is not in the filter changes nothing. The reported length is always the number of fingerprints held, and the filter keeps behaving as an exact set after any mixture of insertions, removals and clears.",
  ["inputs", "histories", "configurations"],
  "all quotient and remainder widths, hash functions and all finite sequences of insert/remove/clear",
  "Removal shifts a cluster left and rewrites metadata; which case applies depends on the layout, and a wrong metadata bit only shows several operations later.",
  ["src/quotient.rs", "src/bitstring_vec.rs"],
  [("removal and left shift", "src/quotient.rs:remove"), ("metadata bits", "src/quotient.rs:SHIFTED/CONTINUATION/OCCUPIED masks")],
  [("slot_vec", "remainders with metadata", "src/quotient.rs"), ("len", "number of fingerprints", "src/quotient.rs")],
  ["QuotientFilter::remove", "QuotientFilter::contains", "QuotientFilter::len", "QuotientFilter::clear"])

p("C12", "Count-min estimate never undercounts and equals the minimum cell",
  "With the minimum strategy and only non-negative updates, the count reported for an item is at least the sum of the values inserted for it and at most the sum of all values inserted, for every table size, hash functions and stream. The estimate is exactly the smallest of the item's cells, one per row, where a cell holds the total of the values of all items mapped to it; with the mean strategy the estimate is the mean of the item's cells over all rows, rounded; with the median-bias strategy the estimate never exceeds the minimum-strategy estimate of the same table.",
  ["inputs", "histories", "configurations"],
  "all row and column counts, hash functions, items and update streams whose totals fit in 64-bit signed integers",
  "Tests insert one or two items without collisions in the table; the bound must hold for every collision pattern and stream.",
  ["src/count_min_sketch.rs", "src/util.rs"],
  [("one cell per row is updated", "src/count_min_sketch.rs:insert"),
   ("cells are read back per row", "src/count_min_sketch.rs:ItemValueIter::next, count"),
   ("strategies", "src/count_min_sketch.rs:get_estimate (three strategies)")],
  [("grid", "rows x cols counters", "src/count_min_sketch.rs")],
  ["CountMinSketch::insert", "CountMinSketch::count"])

p("C13", "Count-min updates are linear: removal cancels insertion",
  "The state of a count-min sketch after any sequence of insertions and removals is a function of each item's net value only, independent of order and of how values were split: removing a value for an item exactly undoes inserting that value for it, and clearing restores the state of a new sketch. An update changes only the updated item's own cell in each row, each by exactly the given value.",
  ["inputs", "histories", "configurations"],
  "all table sizes, hash functions and all finite sequences of insert/remove/clear whose totals fit in 64-bit signed integers",
  "Tests check one insertion followed by one removal; order independence and the frame of an update quantify over all histories.",
  ["src/count_min_sketch.rs", "src/util.rs"],
  [("insert / remove / clear", "src/count_min_sketch.rs")],
  [("grid, items", "counters and total", "src/count_min_sketch.rs")],
  ["CountMinSketch::{insert,remove,clear,count}"])

p("C14", "HyperLogLog state depends only on the set of items; merge is union",
  "The state of a HyperLogLog, and hence the count it reports, is a function of the set of distinct item hashes inserted: order and repetition do not matter, each insertion can only raise the one register selected by the low bits of the item's hash to that hash's rank (one plus the number of trailing one bits of the hash above those low bits), and no other. Merging another sketch built with the same parameters gives exactly the state that inserting the union of both item sets would give, leaves the other sketch unchanged, and clearing gives the state of a new sketch.",
  ["inputs", "histories", "configurations"],
  "all register counts the constructor can produce, hash functions and all finite sequences of insert/merge/clear",
  "Tests insert fixed ranges of integers under a fixed key and check the estimate roughly; state equality over all orders and splits is not checked.",
  ["src/hyperloglog.rs", "src/util.rs"],
  [("register update", "src/hyperloglog.rs:insert"), ("register-wise maximum", "src/hyperloglog.rs:merge"), ("reset", "src/hyperloglog.rs:clear")],
  [("registers", "maximum rank per register", "src/hyperloglog.rs")],
  ["HyperLogLog::{insert,merge,clear,len}"])

p("C15", "MinHash signature is the element-wise minimum over the item set",
  "A MinHash signature has one entry per hash function, and entry k is the minimum over the given items of the k-th hash of the item; it therefore depends only on the set of items, not on their order or multiplicity, and the signature of a union is the element-wise minimum of the signatures. The number of matching positions used for the similarity is exactly the number of equal entries, so identical item sets always have similarity 1.",
  ["inputs", "configurations"],
  "all non-empty finite item sequences, hash functions and signature lengths",
  "Tests compare a few sentences under random keys; independence of order and multiplicity quantifies over all sequences.",
  ["src/similarity/min_hash.rs", "src/util.rs"],
  [("signature", "src/similarity/min_hash.rs:get_min_hashes"), ("matching positions", "src/similarity/min_hash.rs:get_similarity_from_hashes")],
  [], ["MinHash::get_min_hashes", "MinHash::get_similarity_from_hashes", "MinHash::get_similarity"])

p("C16", "SimHash is the bitwise majority over the items",
  "Each bit of a SimHash is decided by majority over the given items' hashes alone: a bit is one exactly when at least as many hashes have a zero as have a one at the corresponding position, ties giving one. The SimHash is therefore independent of item order, and repeating every item the same number of times does not change it.",
  ["inputs"],
  "all finite item sequences and all hash functions",
  "Tests compare a few sentences; majority at every one of the 64 positions for every sequence is not sampled.",
  ["src/similarity/sim_hash.rs", "src/util.rs"],
  [("counting and packing", "src/similarity/sim_hash.rs:get_sim_hash")],
  [], ["SimHash::get_sim_hash"])

p("C17", "SimHash neighbour report is exact",
  "Reporting similar documents returns a pair of document indexes exactly when, for some rotation of the 64-bit SimHashes, the two documents lie within the window of each other in the order of the rotated hashes (ties ordered by index); every pair is reported once, with the smaller index first, never pairs a document with itself, and all indexes are valid. A collection with fewer documents than the window is not an error.",
  ["inputs"],
  "all document collections, window sizes above one and hash functions",
  "Tests use three documents and one window; which rotation brings two documents together depends on the hash values.",
  ["src/similarity/sim_hash.rs"],
  [("rotate, sort, slide the window", "src/similarity/sim_hash.rs:report_similarities")],
  [], ["SimHash::report_similarities"])

p("C18", "Shingles are exactly the consecutive windows of the tokens",
  "Iterating the w-shingles of a token list yields, in order, exactly the windows of w consecutive tokens: the i-th shingle is tokens i to i+w-1, there are n-w+1 of them when the list has n >= w tokens and none when it has fewer, and once exhausted the iterator stays exhausted. No input makes it panic.",
  ["inputs"],
  "all token lists and all positive shingle sizes, including sizes larger than the list",
  "Tests iterate one six-word sentence; lists shorter than the shingle and the end of iteration are not tried.",
  ["src/similarity/mod.rs"],
  [("window arithmetic", "src/similarity/mod.rs:ShingleIterator::next")],
  [("index", "start of the next shingle", "src/similarity/mod.rs")],
  ["ShingleIterator::new", "ShingleIterator::next"])

p("C19", "Packed fingerprint storage reads back what was written",
  "The packed storage under the cuckoo and quotient filters behaves, for every entry width from 1 to 64 bits and every length, as an independent array of entries: reading an entry returns the last value written to it, writing one entry changes no other even when entries straddle machine words, and the count of non-zero entries is always exact. The bit storage under the Bloom filters likewise behaves as an independent array of booleans with an exact count of ones. Reading or writing an entry, or writing or flipping a bit, at an index that is not below the length panics and never touches other entries or unused bits.",
  ["inputs", "histories", "configurations"],
  "all widths 1..64, all lengths, indexes and values, all sequences of writes, clears, pushes and pops",
  "Tests cover five widths with random values; straddling positions and masks are width- and index-specific.",
  ["src/bitstring_vec.rs", "src/bit_vec.rs"],
  [("word and bit addressing with straddling", "src/bitstring_vec.rs:set,get,push,pop,clear"), ("byte and bit addressing", "src/bit_vec.rs:set,get,set_all,flip,push,pop")],
  [("blocks", "packed words", "src/bitstring_vec.rs"), ("occupied_len / one_count", "exact counts", "src/bitstring_vec.rs, src/bit_vec.rs")],
  ["CuckooFilter and QuotientFilter membership and len at every width"],
  "cfg(verif_hooks) module re-exporting the two private storage types for the bounded complement")

p("C20", "False-positive rates and memory match the requested parameters",
  "Filters built from a false-positive probability and an expected item count report absent items as present no more often than requested, on average over the hash functions, while no more than the expected number of items is inserted.",
  ["inputs", "configurations"],
  "all parameters, averaged over ideal hash functions",
  "A statement about probability over hash functions; tests check one rate with a loose bound.",
  ["src/bloom", "src/cuckoo", "src/quotient.rs"],
  [("sizing formulas", "constructors taking fpp")], [], ["constructors", "estimated_fpp"])

p("C21", "Estimates are the values of their formulas on the current state",
  "Up to the rounding of floating-point operations, the estimated false-positive probability is, for the filter's current contents: the fraction of set bits to the power of the number of hash functions (Bloom and partitioned); 1 - s^(2 * entries per index * occupied fraction) with s = (2^f - 2) / (2^f - 1) for f fingerprint bits (cuckoo); 1 - e^(-load / 2^r) for r remainder bits (quotient); and one minus the product of the complements of its filters' estimates (scalable). The HyperLogLog count over m registers, z of them zero, is a * m^2 / sum(2^-register) with the published constant a, replaced by m * ln(m / z) when that is at most 2.5 m and z > 0, and by -2^64 * ln(1 - x / 2^64) for x above 2^64 / 3; the count is empty exactly when every register is zero. The count-min mean estimate is the mean of the item's cells rounded to the nearest integer, the median-bias estimate is the smaller of the smallest cell and the lower median of the cells minus their expected noise (rounded up), and confidence and error are e / columns and e^-rows.",
  ["inputs", "histories", "configurations"],
  "all states reachable by any history, all sizes and parameters, with a raw HyperLogLog estimate below 2^64",
  "Tests compare a handful of values with wide tolerances, never at the switch between the HyperLogLog ranges, with several cells, partly filled cuckoo buckets, or after growth and removals.",
  ["src/hyperloglog.rs", "src/count_min_sketch.rs", "src/bloom", "src/cuckoo", "src/quotient.rs"],
  [("bias-corrected harmonic mean and its ranges", "src/hyperloglog.rs:get_alpha,get_estimate,len"),
   ("mean and median-bias strategies", "src/count_min_sketch.rs:CountMeanStrategy,CountMedianBiasStrategy"),
   ("false-positive formulas", "estimated_fpp of the filters in src/bloom, src/cuckoo, src/quotient.rs")],
  [("registers", "one rank per register", "src/hyperloglog.rs"), ("grid", "the counters", "src/count_min_sketch.rs")],
  ["HyperLogLog::{len,is_empty}", "CountMinSketch::{count,confidence,error}", "estimated_fpp"])

p("C22", "Serialized collections round-trip",
  "With the serde feature, deserializing a serialized collection gives a collection with the same reported membership, counts and parameters.",
  ["inputs", "histories"],
  "all collection states",
  "Tests round-trip one small instance of each type.",
  ["src"], [("derived Serialize/Deserialize", "every collection type")], [], ["serde feature"])

p("C23", "Hashing is a function of the item and the given keys",
  "Two default hash builders are equal exactly when they hold the same two keys, and a builder seeded with two keys hashes every item by SipHash under exactly these keys, every time. The i-th hash an item gets from a pair of builders is enhanced double hashing of the two builders' hashes a and b, a + i*b + i(i-1)(i-2)/6 modulo 2^64. Every collection built with given hash builders uses and reports exactly these, in the given order, after any sequence of operations; so does every filter a scalable filter adds when it grows or is cleared.",
  ["inputs", "histories", "configurations"],
  "all keys, items, hash indexes, hash builders and histories",
  "Tests use the key pairs (0, 0) and (1, 1) only, and look at the builders of no filter added by growth.",
  ["src/util.rs", "src/bloom", "src/cuckoo", "src/count_min_sketch.rs", "src/hyperloglog.rs", "src/quotient.rs", "src/similarity"],
  [("keyed SipHash builder", "src/util.rs:SipHasherBuilder"), ("enhanced double hashing", "src/util.rs:HashIter::next, DoubleHasher::hash"), ("builders handed on to added filters", "try_grow and clear of the scalable filters")],
  [("k0, k1, hasher", "keys and the hasher state made from them", "src/util.rs"), ("hash_builders", "the builders given at construction", "src/util.rs, src/cuckoo/cuckoo_filter.rs")],
  ["hashers", "hasher", "SipHasherBuilder::eq", "DoubleHasher::hash"],
  "cfg(verif_hooks) module re-exporting DoubleHasher for the bounded complement")

p("C24", "Jaccard similarity is intersection over union",
  "The Jaccard similarity of two item sequences, not both empty, is the number of distinct items occurring in both divided by the number of distinct items occurring in either; it is symmetric, ignores order and repetition, and is one for sequences with the same items.",
  ["inputs"],
  "all pairs of finite item sequences that are not both empty",
  "Tests compare one sentence with two others.",
  ["src/similarity/mod.rs"],
  [("sets of items, intersection and union", "src/similarity/mod.rs:get_jaccard_similarity")], [],
  ["get_jaccard_similarity"])

p("C25", "Scalable filters grow exactly when the newest filter is full",
  "A scalable filter adds a filter exactly when an insertion leaves its newest filter full, and adds one at a time. So after every insertion the newest filter of a scalable Bloom filter has fewer than half of its bits set, and the newest filter of a scalable cuckoo filter has a free slot and no entry in its overflow list; a filter is added only by an insertion that leaves at least half of the newest filter's bits set, or its cuckoo table without a free slot or with entries in the overflow list. Removals never add or drop a filter, and clearing goes back to a single empty one.",
  ["inputs", "histories", "configurations"],
  "all initial sizes, growth ratios above zero, hash functions, random choices and all finite sequences of insert/remove/clear",
  "The trigger depends on how the items of a whole history collide (and, for the cuckoo filter, on random evictions); the tests look at the filter count after one fixed sequence.",
  ["src/bloom/scalable_bloom_filter.rs", "src/cuckoo/scalable_cuckoo_filter.rs"],
  [("growth trigger and running estimate of the ones", "src/bloom/scalable_bloom_filter.rs:try_grow,insert"),
   ("growth trigger", "src/cuckoo/scalable_cuckoo_filter.rs:try_grow,insert")],
  [("approximate_bits_used", "never below the ones of the newest filter", "src/bloom/scalable_bloom_filter.rs")],
  ["ScalableBloomFilter::{insert,filter_count,clear}", "ScalableCuckooFilter::{insert,remove,filter_count,clear}"])

p("C26", "Constructors size a collection for the parameters they are given",
  "A filter built for a number of items and a false-positive probability p gets the documented size: ceil(n log2(1/p) / ln 2) bits with ceil(bits / n * ln 2) hash functions; ceil(log2(1/p)) equal partitions; the smallest power of two of cuckoo buckets with room for n entries and fingerprints of ceil(log2(2 / (1 - (1 - p)^(1 / 2b)))) bits; at least 1.33 n quotient slots; so that its estimated false-positive probability is at most p when it holds n items (for Bloom filters: while at most half of the bits are set), and filters added by growth have the previous size times the growth ratio and p times the tightening ratio per step. A count-min sketch built for epsilon and delta has e / columns at most epsilon and e^-rows at most delta, and a HyperLogLog built for error e has 2^k registers for the smallest k with 1.04 / sqrt(2^k) at most e. Constructors with and without explicit hash builders agree, explicit sizes are taken as given, sizes no filter can have (no items, no entries per bucket, explicitly given cuckoo fingerprint widths outside 2 to 64 bits, an empty quotient or remainder, a remainder over 61 or a quotient fingerprint over 64 bits) are refused by a panic, and no probability between 0 and 1 makes a quotient filter's constructor fail unless its fingerprint would not fit in 64 bits.",
  ["inputs", "configurations", "histories"],
  "all item counts, probabilities strictly between 0 and 1, error bounds, growth and tightening ratios, and growth steps",
  "Tests construct one or two sizes per type; rounding directions, the growth schedule and the adequacy of the result for every parameter are not reached.",
  ["src/bloom", "src/cuckoo", "src/count_min_sketch.rs", "src/hyperloglog.rs", "src/quotient.rs"],
  [("size formulas", "constructors and get_hasher_count in src/bloom, src/cuckoo, src/count_min_sketch.rs, src/hyperloglog.rs, src/quotient.rs"),
   ("sizes of added filters", "try_grow of the scalable filters")],
  [("hasher_count, bit_count", "the geometry computed at construction", "src/bloom")],
  ["len, bit_count, hasher_count", "capacity, bucket_len, fingerprint_bit_count, entries_per_index", "rows, cols", "quotient_bits, remainder_bits", "filter_count"])

p("C27", "Equality of vectors, builders, Bloom and cuckoo filters is by content",
  "Two bit vectors compare equal exactly when they hold the same bits, two packed vectors exactly when they have the same width and the same entries, two SipHash builders exactly when their keys agree, two Bloom filters exactly when they have the same bits, number of hash functions and hash builders, and two cuckoo filters exactly when they have the same number of relocations, entries per index, fingerprint width, table, overflow list and hash builders - whatever operations produced them. So values that compare equal answer every query alike, a cleared filter equals a new one of the same parameters and builders, and what was pushed, flipped or truncated away leaves no trace.",
  ["inputs", "histories", "configurations"],
  "all pairs of values, with all widths, lengths, hash builders and all histories of operations (combinations, clone and clone_from included) that produced them",
  "Equality compares packed words and cached counts; tests compare a few values built in the same way, never one that went through pop, truncate, flip, clear or a combination with the same contents built directly.",
  ["src/bit_vec.rs", "src/bitstring_vec.rs", "src/bloom/bloom_filter.rs", "src/cuckoo/cuckoo_filter.rs", "src/util.rs"],
  [("derived comparison of the representation", "src/bit_vec.rs, src/bitstring_vec.rs, src/bloom/bloom_filter.rs, src/util.rs:DoubleHasher"),
   ("hand-written comparisons", "src/cuckoo/cuckoo_filter.rs:eq, src/util.rs:eq"),
   ("no stale bits behind the last element", "src/bit_vec.rs:clear_extra_bits,pop,set_all,flip_all, src/bitstring_vec.rs:pop")],
  [("blocks", "packed words, zero behind the last element", "src/bit_vec.rs, src/bitstring_vec.rs"), ("one_count, occupied_len", "cached counts", "src/bit_vec.rs, src/bitstring_vec.rs")],
  ["== on BitVec, BitstringVec, BloomFilter, CuckooFilter, SipHasherBuilder, DoubleHasher"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
