#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here so it stays readable)."""
import json, os
R='src/jstd/hashmap/robin_hash_map.h'
G15='src/jstd/hashmap/group15_flat_table.hpp'; G15M='src/jstd/hashmap/group15_flat_map.hpp'; G15G='src/jstd/hashmap/flat_map_group15.hpp'; IT15='src/jstd/hashmap/flat_map_iterator15.hpp'
G16='src/jstd/hashmap/group16_flat_table.hpp'; G16M='src/jstd/hashmap/group16_flat_map.hpp'; G16G='src/jstd/hashmap/flat_map_group16.hpp'; IT16='src/jstd/hashmap/flat_map_iterator.hpp'
PROB='src/jstd/hashmap/group_quadratic_prober.hpp'
SP='src/jstd/hashmap/map_slot_policy.h'; FSP='src/jstd/hashmap/flat_map_slot_policy.hpp'; SPT='src/jstd/hashmap/slot_policy_traits.h'
MAPS=[R,G15M,G15,G16M,G16]
P=[]
def p(id,title,st,over,text,why,files,mech=[],obs=[],hook=None,state=[]):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['observe_at']=obs or ['public map API: return values, traversal, size(), exceptions']
    d['anchors']['hook_needed']=hook
    P.append(d)

p('C01','A map behaves as a finite map for every operation history',
 'For robin_hash_map, group15_flat_map and group16_flat_map, after any sequence of insert, emplace, try_emplace, insert_or_assign, insert_always (robin_hash_map; assigns like insert_or_assign), operator[], erase by key and clear, every operation\'s return value (inserted or not, erased count, the element referred to) and every find, at, count, contains, equal_range (where offered), size and empty answer equals that of an abstract finite map given the same sequence. In particular an absent key is always reported absent (find gives end(), at throws std::out_of_range) and a present key is always found with the value last written.',
 ['histories','inputs'],'all finite operation sequences over all key universes, value types and starting capacities; in particular histories that grow, churn, collide and refill tables after erasures',
 'The existing tests replay a few fixed streams (sequential or one random stream of ints/strings) and compare only counts and checksums; the states in which overflow marks, tombstone-free deletion, backward shifts and the growth threshold interact are reached only by particular histories.',
 MAPS+[G15G,G16G,PROB],[('probe/find/insert/erase of the group tables','find_impl, find_or_insert, erase in group15_flat_table.hpp and group16_flat_table.hpp'),('robin-hood probing, displacement and backward shift','direct_find*, find_and_insert, insert_to_place, erase_slot in robin_hash_map.h')])
p('C02','Traversal visits every live element exactly once',
 'At every moment, iterating a map from begin() to end() (mutable or const) visits each stored element exactly once and nothing else, the number of steps equals size(), and begin() equals end() exactly when the map is empty. An iterator returned by find or an insertion denotes the element concerned, and advancing it visits exactly the elements that follow it in that traversal; stepping back from an element other than the first leads to the element before it. bucket() gives different positions for different present keys, and no position of the table for an absent one.',
 ['histories','inputs'],'all operation histories and table sizes, including empty, default-constructed, cleared, shrunk, full and sparsely populated tables',
 'Tests iterate a handful of freshly filled tables and sum values; whether a boundary group, sentinel or nearly empty table is mis-stepped depends on where the survivors of a history sit.',
 [IT15,IT16,R,G15,G16],[('group-wise skipping iterators with an end sentinel','flat_map_iterator15.hpp, flat_map_iterator.hpp, basic_iterator in robin_hash_map.h'),('begin()/end()','begin() in the three tables')])
p('C03','Capacity management never changes contents and keeps its promises',
 'reserve, rehash, resize, shrink_to_fit, max_load_factor and clear leave the map with exactly the elements it had (none after clear) at whatever point of a history and with whatever argument they are called, and the map remains fully usable; a request too large to satisfy throws and changes nothing. The number of buckets is never smaller than the number of elements, nor after reserve(n) or rehash(n) than n; load_factor() is the number of elements divided by the number of buckets; and after reserve(n) a map whose hash spreads its keys well can be brought up to n elements without any further storage allocation.',
 ['histories','inputs'],'all interleavings of capacity operations with insertions and erasures, all arguments including 0, the current size and exact capacity boundaries, all admissible load factors',
 'Tests call reserve once on an empty table and shrink_to_fit never; losing elements needs a capacity request below the live population or a threshold left stale by an earlier call.',
 MAPS,[('rehash and threshold arithmetic','rehash, rehash_impl, calc_capacity, calc_slot_threshold, shrink_to_fit, max_load_factor, clear')])
p('C04','Copies and bulk construction are equal and independent',
 'A map built or assigned from another map, an iterator range (also one that can be read only once) or an initializer list holds exactly the elements of its source (for a range or list with repeated keys, the first occurrence of a key wins), whatever history the source has had. Afterwards neither map is affected by anything done to the other, and self-assignment changes nothing.',
 ['histories','inputs','configurations'],'all source histories, all pairs of source/target sizes, allocators equal or unequal, followed by arbitrary divergent histories of both maps',
 'No existing test copies a map or builds one from a range; a copy that shares or mis-counts state only fails in what happens to the two maps later.',
 MAPS,[('copy construction/assignment and range insertion','copy constructors, operator=, insert(first,last), copy_slots_from / fast_copy_slots_from / unique_insert')])
p('C05','Moves and swaps transfer contents completely',
 'Moving a map (construction or assignment, with equal or unequal allocators) gives the target exactly the contents the source had and leaves the source a valid, empty, reusable map; swap exchanges the complete contents, hash and equality functions of two maps. No later operation on either map can reveal state that belonged to the other.',
 ['histories','configurations'],'all histories before and after the transfer, all allocator propagation configurations, all pairs of sizes including never-allocated maps',
 'No existing test moves or swaps a map and then keeps using both; leftovers (stale bounds, thresholds or end positions) only show in operations performed afterwards.',
 MAPS,[('move construction/assignment, swap','move constructors, move_assign, swap_content, swap_policy')])
p('C06','Erasing through iterators removes exactly the chosen elements',
 'Erasing at an iterator, over an iterator range, or with std::erase_if removes exactly the designated elements and no others, and the iterator returned by an erase designates an element not yet visited or end(). A loop that traverses a map and erases selected elements through the returned iterator therefore examines every element and ends with exactly the unselected ones. If the predicate of std::erase_if throws, exactly the selected elements examined before are gone.',
 ['histories','inputs'],'all table states and all selections of elements to erase during a traversal',
 'No existing test erases through an iterator; the outcome depends on how the erased position relates to group ends, displaced neighbours and the tail of the table.',
 MAPS+[IT15,IT16],[('erase(iterator), erase(first,last), std::erase_if','erase overloads in the map wrappers and tables; backward shift in robin_hash_map.h')])
p('C07','Correctness does not depend on hash quality',
 'A map returns the same answers under every deterministic hash function, including ones that map many keys to one value, keep only low or only high bits, or declare themselves avalanching: hash quality may cost time or memory but never a wrong, lost, duplicated or phantom element.',
 ['inputs','configurations'],'all deterministic hash functions and key sets, including adversarial collision sets, over all histories',
 'Tests use std::hash and library hashes over sequential or random keys, so probe chains longer than a group, saturated overflow marks and colliding fingerprints barely occur.',
 [G15,G15G,G16,G16G,PROB,R,'src/jstd/hasher/hashes.h'],[('hash mixing, fingerprints, overflow marks, quadratic probing','hash_for, ctrl_for_hash, is_not_overflow, next_bucket'),('distance-limited probing','insert_to_place and grow_if_necessary in robin_hash_map.h')])
p('C08','A failed allocation leaves the map as it was',
 'If the allocator fails while a map is inserting, reserving, rehashing, shrinking, copying or being constructed, the failure is reported to the caller as an exception, every pre-existing map still has exactly its previous contents and stays fully usable, and nothing is leaked. (A range insertion or list assignment may keep the elements inserted before the failure, and a move between maps with unequal allocators that fails half-way may leave any of their elements in either map.) Retrying the operation once memory is available succeeds.',
 ['fault_sequences','histories'],'every allocation point of every operation in every history, single and repeated failures',
 'No existing test has an allocator that can fail.',
 MAPS,[('allocation order in growth and rehash','create_slots, rehash_impl, grow_if_necessary'),('copy constructors\' cleanup','copy constructors and copy_slots_from')])
p('C09','A throwing hash or equality function does no damage',
 'If the hash or equality function throws during a lookup, insertion or erase that does not have to move elements, the exception reaches the caller and the map holds exactly what it held before. If it throws while elements are being moved to new storage, the map stays valid and destructible, nothing is leaked, and every element it still reports is one that was there.',
 ['fault_sequences','histories'],'every invocation of the user\'s hash or equality function in every operation of every history',
 'No existing test uses a hash or equality function that can throw.',
 MAPS,[('callbacks before any mutation','find_or_insert / find_and_insert, find_and_erase, rehash_impl')])
p('C10','A throwing element constructor leaves the map valid and unchanged',
 'If constructing, copying or assigning a key or value whose move operations do not throw does throw while one element is being inserted without growth, the exception reaches the caller and the map holds exactly what it held before. If it throws in any other operation, or in a group map a throwing move operation does, the map stays valid: traversal, lookup and size agree, every element reported was present or is being inserted, the map stays usable, and no object is leaked or destroyed twice.',
 ['fault_sequences','histories'],'every construction, copy, move or assignment of a key or value in every operation of every history',
 'No existing test has an element type whose constructors can throw.',
 MAPS+[SP,FSP,SPT],[('slot is marked used before the element is constructed','find_or_insert then construct in emplace_impl / try_emplace_impl'),('roll-back of partial copies','copy_slots_array_from')])
p('C11','Every element object lives exactly once',
 'Every key and value object a map creates is destroyed exactly once, no object is read, moved from, assigned or destroyed outside its lifetime, and the objects of an erased, cleared or replaced element are gone when the call returns. At any quiescent moment exactly size() key objects and size() value objects exist per map, and none after its destruction.',
 ['histories','inputs'],'all histories over element types with non-trivial, throwing-capable or move-only special members, small and large',
 'Tests that count objects insert and erase a few fixed streams in one map; displacement, backward shift, rehash and clear paths that double-destroy or forget an object need particular table states.',
 MAPS+[SP,FSP,SPT],[('slot construct/transfer/swap/exchange/destroy policies','map_slot_policy.h, flat_map_slot_policy.hpp, slot_policy_traits.h'),('clear/destroy loops','clear_slots, destroy_slots')])
p('C12','Storage obeys the allocator protocol',
 'Every block of table storage is obtained from the allocator the map was given, used only within its bounds, and returned exactly once with the same element count through an equal allocator; allocator propagation on copy, move and swap follows the allocator\'s traits. When a map has been destroyed no block remains outstanding.',
 ['histories','configurations'],'all histories over maps with distinct stateful allocators, all propagation settings, all element sizes and alignments',
 'Tests use only std::allocator, for which wrong counts, wrong instances, over-reads and lost blocks are invisible.',
 MAPS,[('size computations shared by allocate and deallocate','TotalSlotAllocCount, TotalGroupAllocCount, create_slots, destroy_data, rehash_impl'),('allocator selection','copy/move constructors, operator=, swap_policy')])
p('C13','Concurrent readers of an unmodified map never interfere',
 'While no operation modifies a map, any number of tasks may call its const operations (find, at, count, contains, traversal, size, copying from it) and the non-const find, at, begin and end interleaved in any way, and each gets the answer it would get alone. These operations write nothing to the map or its storage.',
 ['schedules','histories'],'all schedules of reader tasks (switching inside the user\'s hash and equality functions as well as between calls) over all table states',
 'All existing tests are single-threaded.',
 MAPS+[IT15,IT16],[('const paths share the mutable implementation through const_cast','find/at/count const overloads, begin() const')])
p('C14','Distinct maps never affect each other',
 'Operations on one map have no effect on any other map, in whatever way tasks working on different maps are interleaved, including inside each other\'s hash, equality and element callbacks and including empty, cleared, moved-from and never-allocated maps that share static storage.',
 ['schedules','histories'],'all schedules of tasks owning different maps, all histories',
 'Existing tests use one map at a time and never interleave operations on two maps.',
 MAPS,[('shared static empty tables','default_empty_groups / default_empty_ctrls'),('no global state in operations','table members only')])
p('C15','Elements stay put until the map must move them',
 'In the group maps, references and iterators to an element stay valid and unchanged across every insertion that does not rebuild the storage and every erasure of another element; in every map references survive lookups, insertions that find their key present, and swaps and moves of the whole map with an equal allocator. Once reserve(n) has been called on a group map, inserting up to n elements moves none.',
 ['histories','schedules'],'all histories between taking a reference and using it',
 'Existing tests never hold a reference across another operation.',
 MAPS,[('in-place erase, no relocation except rehash','erase/reset_ctrl in the group tables, rehash_impl'),('pointer-stealing move and swap','swap_content')])
p('C16','Arguments may alias the map and are consumed at most once',
 'Inserting or assigning a key or value that lives inside the same map (copied or moved from there) works even when the call must grow the table, and so does erasing by a key that lives inside the map. A try_emplace or an insert of a pair that finds its key already present does not modify or move from its arguments, and an insertion that takes place moves from each rvalue argument exactly once.',
 ['histories','inputs'],'all table states in which the aliasing call occurs, in particular those where it triggers growth',
 'Existing tests always pass fresh temporaries.',
 MAPS,[('key is re-read after growth','find_or_insert / find_and_insert followed by construct'),('argument forwarding','emplace_impl, try_emplace_impl')])
p('C17','Work and memory stay bounded under endless churn',
 'With the population of a map bounded by n and a hash function without excessive collisions, its bucket count stays within a constant multiple of n, the average work of a lookup (of a present or an absent key), an insertion or an erase stays within a constant bound and every operation finishes within a bounded number of steps, however long insertions and erasures go on and in whatever order. No lookup, insertion or erase ever fails to terminate.',
 ['histories'],'unbounded histories with bounded population, including ones that keep the table exactly at its growth threshold',
 'Existing churn tests run one fixed random stream; threshold drift and tables filled to the last slot need specific long histories.',
 [G15,G16,R,PROB],[('growth threshold adjusted on erase/insert of displaced elements','need_grow, slot_threshold_ updates in erase and find_empty_to_insert'),('probe termination','find_empty_to_insert, next_bucket')])
p('C18','Random generators are reproducible and independent',
 'A Mersenne Twister generator (32- or 64-bit) seeded with a given nonzero value or key array, at construction or by reseeding at any later time, produces the reference MT19937 or MT19937-64 sequence for that seed. A copy continues the sequence of its source from the point of copying. Drawing from, copying or reseeding one generator object never influences another, however draws from several are interleaved.',
 ['schedules','histories'],'all seeds, all interleavings of draws and reseedings of several generators, arbitrarily long streams',
 'The benchmark prints a few numbers from one generator with one seed and compares them with nothing.',
 ['src/jstd/system/MT19937_32.h','src/jstd/system/MT19937_64.h','src/jstd/system/RandomGen.h'],[('state refill and seeding','init, next_state, rand, srand')],['return values of rand/next*'])
p('C19','Bounded random draws respect their bounds under any seed source',
 'Every bounded draw (integer or floating-point, minimum and maximum in either order, for floating-point ranges whose width is finite) returns a value within the requested closed range, whatever the underlying generator, seed or clock value when the seed is taken from the clock, and each value of a small integer range does occur. Seeding with zero depends on the clock only: equal clock readings (in seconds, within 32 bits) give equal streams, different ones different streams.',
 ['inputs','histories'],'all ranges including negative, single-value and full-width ones, all generator states and clock readings',
 'Only unbounded draws appear in the existing tests.',
 ['src/jstd/system/RandomGen.h','src/jstd/system/LibcRand.h','src/jstd/system/LibcRandom.h','src/jstd/system/MT19937_32.h','src/jstd/system/MT19937_64.h'],[('modular reduction into the range','nextInteger, nextFloat, nextDouble'),('clock seeding','srand(0)')],['return values'],None)
p('C20','Stopwatches report exactly the time their clock advanced',
 'A stopwatch\'s elapsed reading equals the amount its clock advanced between the start and stop it reports on (or now, for peeking), in each unit it offers; repeated reading does not change it. The extended stopwatch\'s total equals the sum of the intervals accumulated by pausing (or by again, once per interval), for every order of start, stop, pause, resume, restart and reset and for every clock history including stalls and backward jumps.',
 ['histories','fault_sequences'],'all call sequences on several stopwatches and all clock behaviours (ticks, stalls, jumps forward and backward)',
 'Benchmarks print elapsed times of real runs and assert nothing about them.',
 ['src/jstd/test/StopWatch.h'],[('interval arithmetic and running/accumulated state','StopWatchBase, StopWatchExBase, StdStopWatchImpl')],['return values of the reading functions under a simulated clock'])
p('C21','Element types with fewer operations work throughout',
 'Maps work with every element type the interface admits: move-only values, keys and values that can be copied but not moved, over-aligned and large values, and keys from one byte up to several cache lines, in every history of the operations those types support.',
 ['configurations','histories'],'all admissible element types, over all histories',
 'Existing tests instantiate int, size_t, string and a few POD-like types only, and the storage path chosen (in-place, indirect, plain copy, swap or exchange) depends on the type.',
 MAPS+[SP,FSP,SPT],[('type-dependent storage layouts and transfer paths','kIsIndirectKV, kIsPlainKV, kIsSwappableKV in robin_hash_map.h; slot policies')])
p('C22','Lookup by another key type agrees with lookup by the key itself',
 'When hash and equality are both declared transparent, every lookup, insertion or erasure the map accepts with an equivalent argument of another type gives the same answers and has the same effects as with a key object.',
 ['histories','inputs'],'all histories with mixed key and key-like arguments',
 'No existing test uses a transparent hash.',
 MAPS,[('key_arg selection','key_arg_selector and templated lookups')])
p('C23','Internal assertions hold in every history',
 'A program that uses the three hash maps compiles with assertions enabled (NDEBUG undefined), and no assertion inside the library ever fails, whatever sequence of permitted operations is performed, whichever of the caller\'s allocators, hash functions, comparisons or element operations fails, and however tasks that use different maps or only read one are interleaved. With assertions enabled the maps give the same answers as without.',
 ['histories','fault_sequences','schedules'],'all histories, fault sequences and schedules of the other properties',
 'The repository is built and tested with assertions disabled only.',
 MAPS+[IT15,IT16,'src/jstd/support/Power2.h'],[('internal preconditions and invariants','assert() in the tables, iterators and probers')],obs=['failed assertions, compilation with assertions, public map API'])
p('C24','Time readings and sleeps follow the clock',
 'The time helpers compile, and each returns the reading of the system\'s real-time clock at the call in the unit it names (nanoseconds, milliseconds, seconds); the elapsed-time and interval helpers return the amount the clock has moved since a timestamp, or between two timestamps, in theirs, without losing precision to the size of the reading, for every clock history including stalls and backward jumps. thread_sleep(n) and thread_wsleep(n) with n > 0 return no earlier than n milliseconds after the call and without waiting again for time already waited, for every n, however often and whenever signals interrupt the wait and whatever the real-time clock does meanwhile.',
 ['histories','fault_sequences','inputs'],'all call sequences, durations, clock behaviours and interruption patterns',
 'No test calls these helpers; interruptions, clock jumps and week-long sleeps cannot be produced in a test of real time.',
 ['src/jstd/system/time.h','src/jstd/system/sleep.h'],[('unit conversion of clock readings','jmc_get_*'),('waiting','thread_sleep, thread_wsleep')],obs=['return values and the simulated time at which the calls return'])
# Pure functions of their input: not applicable to this family.
na='pure function of its input: no schedule, clock, fault or history'
p('N01','Hash functions are deterministic and length-faithful',
 'Each hash function returns a value depending only on the bytes it is given, and agrees with its published reference for every length and alignment.',['inputs'],'all byte strings','Tests print a few hashes.',['src/jstd/hasher/fnv1a.h','src/jstd/hasher/hash_crc32.h','src/jstd/hasher/hashes.h','src/jstd/hasher/sha1.h'],obs=['return values'])
p('N02','String comparison agrees with byte-wise lexicographic order',
 'string_view equality and ordering agree with byte-wise comparison for all lengths and alignments, and never read outside the strings.',['inputs'],'all pairs of strings','Tests compare only equal benchmark keys.',['src/jstd/string/string_view.h','src/jstd/string/string_utils.h','src/jstd/string/string_stl.h'],obs=['return values'])
p('N03','Bit and power-of-two helpers match their mathematical definitions',
 'Bit scans, rotations, bit-vector matches, power-of-two tests and roundings return the mathematically defined value for every input of every width.',['inputs'],'all inputs','power2_test prints a table of samples.',['src/jstd/support/BitUtils.h','src/jstd/support/BitVec.h','src/jstd/support/Power2.h'],obs=['return values'])
p('N04','Text formatting renders every value faithfully',
 'The string formatter renders every argument list as the format string specifies and never writes outside its buffer.',['inputs'],'all format strings and arguments','The formatter is compiled by no test.',['src/jstd/string/formatter.h'],obs=['output text'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
