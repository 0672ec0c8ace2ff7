import json
p='/verif/specs/properties.json'; d=json.load(open(p))
def fn(m,t,names): return ["%s::%s::%s"%(m,t,n) for n in names.split()]
PART=('bloom_partitioned_bloom_filter','PartitionedBloomFilter'); BL=('bloom_bloom_filter','BloomFilter'); SC=('bloom_scalable_bloom_filter','ScalableBloomFilter')
DD=[('bloom_dd_bloom_filter',t) for t in ('BSBloomFilter','BSSDBloomFilter','RLBSBloomFilter')]
import re
specs={k for f in __import__('glob').glob('/verif/specs/*.spec') for k in re.findall(r'^=== fn (\S+)',open(f).read(),re.M)}
def have(l):
    for k in l: assert k in specs, k
    return l
partc=[k.split('::')[2] for k in sorted(specs) if k.startswith('bloom_partitioned_bloom_filter::PartitionedBloomFilter::')]
print(partc)
d['C02']={"tags":[],"roots":have(fn(*PART,' '.join(n for n in partc if n in('insert','contains','clear','new','with_hashers') or n.startswith('from_')))),
 "note":"Unbounded proof for every item, hash function, geometry and history: insert sets exactly the item's one probe position in each of hasher_count disjoint partitions of bit_count bits (nothing else changes), contains answers exactly 'the position in every partition is set'; lemmas lift this to every history. Trusted: the Hash, BuildHasher and Hasher trait methods are functions; sizes computed in floating point are taken over real numbers (up to 2^40 items, probabilities from 2^-64 up); empty partitions are excluded by precondition.",
 "theorems":["lemma_part_insert","lemma_part_history"]}
d['C03']={"tags":[],"roots":have(fn(*SC,'insert contains clear with_hashers new try_grow')),
 "note":"Unbounded proof for every history and every number of growth steps: insertion changes only the newest filter, and only by gaining the item's bits; growth appends one empty filter and leaves the others in place; lemma_scal_history gives no false negatives over every history. Preconditions: positive growth ratio, and the next size below 2^62. Size arithmetic is over real numbers.",
 "theorems":["lemma_scal_insert","lemma_scal_history"]}
dd4=[k for m,t in DD for k in fn(m,t,'insert contains contains_hashes clear with_hashers new')]
d['C04']={"tags":[],"roots":have(dd4),
 "note":"Unbounded proof for the three stream filters, every history and every outcome of the random choices (random values are unconstrained within their range): after insert(item) every probe of the item is set, an item already reported leaves every bit unchanged.",
 }
d['C05']={"tags":["evict"],"roots":have(dd4),
 "note":"Unbounded proof for the three stream filters and every random choice: the state after insert of a new item is the state before with at most one bit cleared per partition (at most one in the whole filter for single deletion) and then exactly the item's one probe position per partition set; lemma_*_step derives that membership only changes for items sharing such a position.",
 "theorems":["lemma_BSBloomFilter_step","lemma_BSSDBloomFilter_step","lemma_RLBSBloomFilter_step"]}
c='count_ones count_zeros len is_empty clear insert'
def opt(m,t,names): return [k for k in fn(m,t,names) if k in specs]
d['C06']={"tags":["count"],"roots":have(opt(*BL,c+' new with_hashers from_fpp from_item_count from_fpp_with_hashers from_item_count_with_hashers')+opt(*PART,c+' '+' '.join(n for n in partc if n.startswith('from_')) )+[k for m,t in DD for k in opt(m,t,c+' new with_hashers')]+opt(*SC,c+' new with_hashers try_grow')),
 "note":"Unbounded proof for all six filter types: one_count of every bit vector equals the number of set bits through every constructor and mutator, count_ones/count_zeros return it and its complement, inserting a reported item changes no count, clear gives zero ones. For the scalable filter the totals are sums over its filters (assumed not to exceed 2^64)."}
d['C19']={"tags":["count"],"roots":have([k for k in sorted(specs) if k.startswith('bitstring_vec::') or k.startswith('bit_vec::')]),
 "note":"Unbounded proof for every width 1 to 64, every length and every sequence of calls: the packed vector refines a sequence of entries (get reads the last value written, set changes one entry and no other bit, push/pop/truncate/clear/iteration act as on the sequence) and occupied_len is the number of non-zero entries; the same for the bit vector with its count of ones. Precondition: a written entry fits in the width, total size below 2^64 bits. The bitwise combinations (union, intersection, difference, symmetric difference) and the conversions from and to bytes are under contract too. Not under contract, only searched: the two into_iter wrappers of each type.",
 "theorems":["lemma_entry_update","lemma_block_update","lemma_combined"]}
def allof(*mods): return [k for k in sorted(specs) if any(k.startswith(m+'::') for m in mods)]
def pick(m, names): return have([m+'::'+n for n in names.split()])
HASH=' Trusted: the Hash, BuildHasher and Hasher trait methods are functions (of the item, builder and hasher state); util::hash itself is verified.'
d['C12']={"tags":[],"roots":pick('count_min_sketch','CountMinStrategy::get_estimate CountMeanStrategy::get_estimate CountMedianBiasStrategy::get_estimate ItemValueIter::next CountMinSketch::new CountMinSketch::with_hashers CountMinSketch::from_error CountMinSketch::from_error_with_hashers CountMinSketch::insert CountMinSketch::count CountMinSketch::clear CountMinSketch::rows CountMinSketch::cols'),
 "note":"Unbounded proof for every table size, hash function and stream: insert adds the value to the item's one cell in each row and to nothing else, the minimum strategy returns exactly the smallest of the item's cells, the mean strategy the rounded mean (f64 arithmetic as real arithmetic), the median-bias strategy at most the minimum; lemma_cms_estimate lifts this to: over every history of non-negative updates the estimate is at least the item's own total and at most the total of all. Preconditions: totals fit in i64 (median-bias: cells within 2^61)."+HASH,
 "theorems":["lemma_cms_history","lemma_cms_estimate"]}
d['C13']={"tags":[],"roots":pick('count_min_sketch','CountMinSketch::new CountMinSketch::with_hashers CountMinSketch::from_error CountMinSketch::from_error_with_hashers CountMinSketch::insert CountMinSketch::remove CountMinSketch::clear'),
 "note":"Unbounded proof: insert(v) and remove(v) add v and -v to exactly the item's cells; lemma_cms_undo: remove undoes insert; lemma_cms_state: two histories in which every item has the same net value end in the same state, whatever the order and the splitting of values; clear gives the state of a new sketch. Precondition: totals fit in i64."+HASH,
 "theorems":["lemma_cms_undo","lemma_cms_state"]}
d['C14']={"tags":[],"roots":pick('hyperloglog::HyperLogLog','new with_hasher get_alpha insert merge clear hasher'),
 "note":"Unbounded proof for every precision, hash function and history: insert raises only the register selected by the hash, to the maximum of its value and the hash's rank; merge takes the register-wise maximum and cannot change the other sketch (shared reference); lemmas: the state represents the set of hashes inserted and is determined by that set, merge represents the union, clear and new the empty set. The estimate is covered by C21."+HASH,
 "theorems":["lemma_hll_history","lemma_hll_unique","lemma_hll_merge"]}
d['C15']={"tags":[],"roots":pick('similarity_min_hash::MinHash','new with_hashers get_min_hashes get_similarity_from_hashes get_similarity hasher_count'),
 "note":"Unbounded proof for all non-empty item sequences, hash functions and signature lengths: entry k is the minimum over the items of the k-th hash; lemmas: the signature is determined by the set of items, that of a union is the element-wise minimum, equal sets match in every position; get_similarity is the number of equal entries over the number of hash functions (the f64 quotient as a function of the two integers). Iterators are taken as finite sequences."+HASH,
 "theorems":["lemma_signature_of_set","lemma_signature_union","lemma_matches_self"]}
d['C16']={"tags":[],"roots":pick('similarity_sim_hash::SimHash','with_hasher get_sim_hash hasher'),
 "note":"Unbounded proof for all item sequences (shorter than 2^63) and hash functions: each of the 64 bits is decided by the majority at its position, ties giving one; lemmas: independent of order, unchanged when every item is repeated the same number of times."+HASH,
 "theorems":["lemma_sim_hash_order","lemma_sim_hash_copies"]}
d['C17']={"tags":[],"roots":pick('similarity_sim_hash::SimHash','report_similarities get_sim_hash'),
 "note":"Unbounded proof for all collections and windows above one: the reported pairs are exactly those within the window of each other in the sorted order of some rotation, each once, smaller index first; no panic with fewer documents than the window. Trusted: slice sort (a sorted rearrangement), rotate_left, HashSet as a mathematical set.",
 "theorems":["lemma_arrangement_unique","lemma_near_valid"]}
d['C18']={"tags":[],"roots":pick('similarity::ShingleIterator','new next'),
 "note":"Unbounded proof for all token lists and shingle sizes: every call yields the next window of consecutive tokens, or nothing, for ever, once no full window is left; no overflow or out-of-range slice.",
 "theorems":["lemma_shingles"]}
CK=('cuckoo_cuckoo_filter','CuckooFilter'); SCK=('cuckoo_scalable_cuckoo_filter','ScalableCuckooFilter')
ctors='new with_hashers from_parameters from_parameters_with_hashers from_entries_per_index from_entries_per_index_with_hashers from_fingerprint_bit_count from_fingerprint_bit_count_with_hashers'
d['C07']={"tags":[],"roots":have(fn(*CK,ctors+' insert insert_fingerprint contains contains_fingerprint get_fingerprint_and_indexes remove remove_fingerprint clear')),
 "note":"Unbounded proof for every capacity, entries per bucket, fingerprint width 1 to 64, hash function, history and every random choice and number of relocations: the set of classes held after insert is the set before plus the item's class (also when the displaced entry goes to the overflow list), contains answers exactly membership of the item's class, remove takes exactly that class out; lemma_cuckoo_history lifts this to every history. Trusted: the random generator (any value in range), next_power_of_two, Vec::swap_remove (vstd); termination of the rehash loop for a zero fingerprint is assumed (it depends on the hash function); sizes below 2^55."+HASH,
 "theorems":["lemma_cuckoo_history","lemma_alt"]}
d['C08']={"tags":["count"],"roots":have(fn(*CK,ctors+' insert insert_fingerprint contains contains_fingerprint get_fingerprint_and_indexes remove remove_fingerprint clear len is_empty capacity bucket_len entries_per_index extra_items_len is_nearly_full fingerprint_bit_count')),
 "note":"Unbounded proof: remove takes exactly the item's class out of the set held and changes neither table nor overflow list if it was not held; the invariant 'no class is held by two entries' gives occupied slots + overflow length = number of classes held after every operation, insertion adds one entry for a new class and none otherwise, clear leaves none; bucket count is a power of two, capacity = buckets * entries per bucket >= requested items. Trusted as C07."+HASH,
 "theorems":["lemma_cuckoo_history","lemma_removed"]}
d['C09']={"tags":["count"],"roots":have(fn(*SCK,'new with_hashers from_entries_per_index from_entries_per_index_with_hashers insert contains remove clear len is_empty capacity filter_count try_grow')),
 "note":"Unbounded proof for every history, growth and random choice: insertion changes only the newest filter and only by the item's class, growth leaves every filter in place and appends an empty one, removal takes the item's class out of every filter and nothing else; lemma_sc_history: an item inserted is reported as long as no item colliding with it in some filter is removed; length is the number of entries of all filters, overflow included. Precondition: the next size is below 2^55; a panic of a constructor on a probability that needs more than 64 fingerprint bits is not excluded."+HASH,
 "theorems":["lemma_sc_history","lemma_sc_insert","lemma_sc_remove"]}
qf='new with_hasher from_fpp from_fpp_with_hasher insert contains insert_and_shift_right get_run_start increment_index decrement_index len is_empty capacity clear quotient_bits remainder_bits'
QN=" Contracts say nothing of the table's size in memory. from_fpp is covered for up to 2^40 items and probabilities from 2^-40 up, over real numbers."+HASH
d['C10']={"tags":[],"roots":pick('quotient::QuotientFilter',qf),
 "note":"Unbounded proof for every table size, remainder width, hash function and history, full tables and wrap-around included: the table is read periodically, its metadata bits determine the quotient of every slot (lemma_uniq), and the set of (quotient, remainder) pairs so held is the filter's contents. contains answers exactly membership of the item's pair, insert adds exactly that pair (leaving the table untouched when it is held), and may panic only when the table is full and the pair is new; lemma_qf_history lifts this to every history of insert, remove and clear."+QN,
 "theorems":["lemma_insert","lemma_uniq","lemma_qf_history","lemma_qf_same"]}
d['C11']={"tags":[],"roots":pick('quotient::QuotientFilter',qf+' remove'),
 "note":"Unbounded proof for every table size, remainder width, hash function and history, full tables and wrap-around included: remove takes exactly the item's (quotient, remainder) pair out of the set held and leaves the table untouched when the pair is not held; len is always the number of pairs held; lemma_qf_history lifts this to every history of insert, remove and clear."+QN,
 "theorems":["lemma_remove","lemma_uniq","lemma_qf_history","lemma_qf_same"]}
COLL=[k for k in sorted(specs) if re.search(r'::(with_hashers?|from_\w+_with_hashers?|hashers?)$',k) and not k.startswith('util::')]
d['C23']={"tags":["keys"],"roots":have([k for k in sorted(specs) if k.startswith('util::')]+COLL+pick('similarity_sim_hash::SimHash','new default')+fn(*SC,'try_grow clear')+fn('cuckoo_scalable_cuckoo_filter','ScalableCuckooFilter','try_grow clear')),
 "note":"Unbounded proof: from_seed builds the SipHash state of exactly the given keys, build_hasher returns it, eq compares both keys, util::hash feeds the item to it; HashIter::next is one step of the generator and lemma_hi_closed gives its closed form for every index below 2^64; every constructor taking builders stores them in order, every getter returns them, and every filter of a scalable filter carries the builders of the first through growth and clear. Trusted: the Hash, BuildHasher and Hasher trait methods are functions of the item, builder and hasher state (axiom_sip_dispatch links the trait call to the verified build_hasher), SipHasher::new_with_keys is a function of the keys. That no other method replaces the builders is part of the contracts of the other properties (same_keys).",
 "theorems":["lemma_seeded","lemma_hi_closed"]}
d['C24']={"tags":[],"roots":pick('similarity','get_jaccard_similarity'),
 "note":"Unbounded proof for all pairs of finite item sequences not both empty: the result is the quotient of the sizes of the intersection and the union of the two item sets; lemma: symmetric, a function of the two sets, equal sizes for equal sets. Trusted: std HashSet as a mathematical set (an item type whose Eq is equality), iterators as finite sequences, the f64 quotient as a function of the two integers.",
 "theorems":["lemma_jaccard_sets"]}
d['C25']={"tags":["count","grow"],"roots":have(fn(*SC,'new with_hashers insert clear filter_count try_grow')+fn(*SCK,'new with_hashers from_entries_per_index from_entries_per_index_with_hashers insert remove clear filter_count try_grow')),
 "note":"Unbounded proof for every history, initial size, hash function and random choice: the invariants 'the newest Bloom filter has fewer than half of its bits set, and the running estimate is at least their number' and 'the newest cuckoo filter has a free slot and no overflow entries' hold after every constructor and operation, and an insertion appends a filter exactly when it leaves the newest one at the limit. The size of an added filter is computed over real numbers, below 2^62 bits (2^55 entries) by precondition. Sizes below 2^62."+HASH}
FLOAT=" Floats are real numbers here: f64 operations are taken as exact, ln, exp, powf and log by their laws, so rounding, overflow and NaN are not modelled; float to integer casts saturate as in Rust; parameters are bounded by preconditions (up to 2^40 items, probabilities from 2^-64 up, 2^-40 for quotient filters and count-min errors) so that no size overflows."
CMSM='count_min_sketch'
d['C21']={"tags":["count","real"],"roots":pick('hyperloglog::HyperLogLog','with_hasher new get_alpha get_estimate len is_empty clear')
  +pick(CMSM,'CountMeanStrategy::get_estimate CountMedianBiasStrategy::get_estimate CountMinSketch::count CountMinSketch::confidence CountMinSketch::error CountMinSketch::insert CountMinSketch::remove CountMinSketch::clear')
  +have(fn(*BL,'estimated_fpp insert clear')+fn(*PART,'estimated_fpp insert clear')+fn(*SC,'estimated_fpp')+fn(*CK,'estimated_fpp insert remove clear')+fn(*SCK,'estimated_fpp'))
  +pick('quotient::QuotientFilter','estimated_fpp'),
 "note":"Unbounded proof for every state satisfying the type's invariant (kept by every constructor and operation): each estimate equals its formula over real numbers. lemma_hll_empty: the count is zero exactly for the blank state. Assumed for HyperLogLog: a raw estimate below 2^64."+FLOAT,
 "theorems":["lemma_hll_empty"]}
d['C26']={"tags":["count","real"],"roots":have(opt(*BL,'new with_hashers from_fpp from_item_count from_fpp_with_hashers from_item_count_with_hashers len hasher_count')
  +fn(*PART,'from_item_count from_bit_count from_item_count_with_hashers from_bit_count_with_hashers len hasher_count bit_count')
  +[k for m,t in DD for k in fn(m,t,'new with_hashers len hasher_count bit_count')]
  +fn(*SC,'new with_hashers try_grow')+fn(*CK,ctors+' capacity bucket_len entries_per_index fingerprint_bit_count')
  +fn(*SCK,'new with_hashers from_entries_per_index from_entries_per_index_with_hashers try_grow entries_per_index'))
  +pick(CMSM,'CountMinSketch::new CountMinSketch::with_hashers CountMinSketch::from_error CountMinSketch::from_error_with_hashers CountMinSketch::rows CountMinSketch::cols')
  +pick('hyperloglog::HyperLogLog','new with_hasher get_alpha')
  +pick('quotient::QuotientFilter','new with_hasher from_fpp from_fpp_with_hasher capacity quotient_bits remainder_bits'),
 "note":"Unbounded proof for every item count, probability and ratio: each constructor and growth step gives the size of its formula over real numbers; the adequacy lemmas derive from these sizes that the estimated false-positive probability is at most the requested one (Bloom and partitioned: with at most half of the bits set; cuckoo: at any fill; quotient: with at most the requested number of items), the count-min bounds and the HyperLogLog register count. QuotientFilter::from_fpp panics only when the fingerprint does not fit. That a Bloom filter holding n items has at most half of its bits set is a statement about the hash distribution and not covered (C20)."+FLOAT,
 "theorems":["lemma_bloom_adequate","lemma_part_adequate","lemma_cuckoo_adequate","lemma_cuckoo_adequate_entries","lemma_cms_adequate","lemma_hll_adequate","lemma_quotient_adequate"]}
d['C27']={"tags":["count"],"roots":have([k for k in sorted(specs) if k.startswith('bitstring_vec::') or k.startswith('bit_vec::')]+opt(*BL,'eq new with_hashers from_fpp from_item_count from_fpp_with_hashers from_item_count_with_hashers insert clear')
  +fn(*CK,'eq '+ctors+' insert remove clear')+pick('util','DoubleHasher::eq DoubleHasher::with_hashers SipHasherBuilder::eq SipHasherBuilder::from_seed SipHasherBuilder::from_entropy')),
 "note":"Unbounded proof for every pair of values reachable through the constructors and operations: the invariants make the representation canonical (no stale bits behind the last element, exact counts; lemma_bits_canonical, lemma_entries_canonical), so that comparing representations is comparing contents; lemma_bloom_equal, lemma_cuckoo_equal: values that compare equal answer every query alike; lemma_bloom_empty, lemma_cuckoo_empty: cleared filters equal new ones. A derived PartialEq is expanded by the extractor into the comparison of the fields in order. Assumed: == on a generic hash builder and on Vec is equality; for SipHasherBuilder it is proved.",
 "theorems":["lemma_bits_canonical","lemma_entries_canonical","lemma_bloom_equal","lemma_cuckoo_equal","lemma_bloom_empty","lemma_cuckoo_empty"]}
json.dump(d,open(p,'w'),indent=1)
