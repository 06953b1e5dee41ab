#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that ids/anchors stay consistent)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": mech,
                          "observe_at": observe, "hook_needed": hook}})
L="src/list/mod.rs"; Q="src/queue/mod.rs"; S="src/stack/mod.rs"; V="src/vector/mod.rs"
H="src/map/hash_trie_map/mod.rs"; SA="src/map/hash_trie_map/sparse_array_usize/mod.rs"; RY="src/map/hash_trie_map/rayon.rs"
R="src/map/red_black_tree_map/mod.rs"; HS="src/set/hash_trie_set/mod.rs"; RS="src/set/red_black_tree_set/mod.rs"; U="src/utils/mod.rs"
def m(*a): return [{"name": n, "where": w} for n, w in a]

p("C01","Vector is an exact indexed sequence",
  "Under every sequence of push_back, set, get_mut/index assignment, drop_last and extend, a Vector holds exactly the sequence those operations define: get/index, first, last, len and is_empty answer from that sequence, an in-range set or mutable access changes exactly one position, and drop_last removes exactly the last element. Out-of-range reads and writes are refused (None/false, or a panic for index syntax) without changing anything. This holds for every supported number of branching bits and every length, including the lengths at which the internal tree gains or loses a level.",
  ["histories","inputs","configurations"],"every operation history, every length and index, every branching width accepted by the constructor",
  "Tests push and drop a few fixed lengths at two or three widths; the level-change boundaries are reached in one direction only and never mixed with sets and drops on shared versions.",
  [V], m(("bucket/height/root_max_capacity arithmetic",V),("assoc, drop_last, compress_root",V)),
  ["Vector::{get,index,first,last,len,iter} after every operation"],
  [{"name":"root/bits/length","meaning":"bitmapped trie and element count","where":V}])
p("C02","List and Stack are exact LIFO sequences",
  "Under every sequence of push_front, drop_first and reverse (persistent or in-place), a List holds exactly the sequence those operations define, and first, last, len and iteration answer from it; in particular last is right after any mix of reversals, drops to empty and pushes. A Stack pops and peeks exactly the most recently pushed element not yet popped. Removing from an empty List or Stack reports failure and leaves it empty.",
  ["histories"],"every history of operations over any number of sharing versions",
  "Unit tests run single short histories; the cached last pointer and in-place reversal depend on the history and on which nodes are shared.",
  [L,S], m(("last cached beside head",L),("reverse_mut relinks nodes in place with copy-on-write",L)),
  ["List::{first,last,len,iter}, Stack::{peek,size,iter}"])
p("C03","Queue is exactly first-in first-out",
  "Under every sequence of enqueue and dequeue (persistent or in-place), a Queue yields elements exactly in the order they were enqueued, each exactly once: peek is the oldest element not yet dequeued, dequeue removes exactly that one, and len and iteration describe exactly the remaining elements in order. Dequeuing an empty queue reports failure and leaves it empty. This holds however enqueues and dequeues interleave and whichever versions are still shared.",
  ["histories"],"every interleaving of enqueues, dequeues, clones and iterations",
  "The two-list representation has a hidden phase (when the in-list is reversed into the out-list); tests sample a few phases.",
  [Q,L], m(("out_list consumed before reversed in_list",Q),("lazily reversed iterator",Q)),
  ["Queue::{peek,len,iter,dequeue}"])
p("C04","HashTrieMap is an exact map for every hash and degree",
  "Under every sequence of insert, remove and get_mut, a HashTrieMap holds exactly the association those operations define: an insert binds its key (replacing the previous key and value of an equal key), a remove unbinds exactly that key and reports whether it was present, and get, get_key_value, contains_key, index, size and is_empty agree with the association. This holds for every hash function on the keys, including total, prefix-only and full-width collisions, and for every degree the constructor accepts.",
  ["histories","inputs","configurations"],"every operation history, every assignment of 64-bit hashes to keys, every accepted degree",
  "Tests use a handful of fixed hash shapes with three degrees; branch splitting, collision buckets and compression depend on the combination of hash prefixes, history and degree.",
  [H,SA,U], m(("branch/leaf/collision insert and remove",H),("compress keeps the trie minimal",H),("bitmap rank indexing",SA)),
  ["HashTrieMap::{get,get_key_value,contains_key,size,iter,remove_mut}"],
  [{"name":"root/size/degree","meaning":"hash array mapped trie","where":H}])
p("C05","RedBlackTreeMap is an exact ordered map",
  "Under every sequence of insert, remove and get_mut, a RedBlackTreeMap holds exactly the association those operations define, and get, get_key_value, contains_key, index, size, first and last answer from it; insert replaces the previous key and value of an equal key, and remove reports whether the key was present and changes nothing else. Its entries are always reachable in strictly increasing key order. This holds for every insertion and deletion order and however much of the tree is shared with other versions.",
  ["histories","inputs"],"every order of insertions, replacements and removals over any ordered key type, on shared and unshared trees",
  "Tests check a few sorted/shuffled insertion and removal orders; the rebalancing case analysis (insertion balance, delete fuse and balance left/right) has far more tree shapes than they visit, and each case behaves differently on shared nodes.",
  [R,U], m(("balance",R),("remove_fuse, remove_balance_left/right",R)),
  ["RedBlackTreeMap::{get,first,last,size,iter}"])
p("C06","Set operations and set relations are exact",
  "HashTrieSet and RedBlackTreeSet hold exactly the elements their insert/remove history defines, and contains, get, size (and first/last for the ordered set) answer from that set. is_subset, is_superset and is_disjoint return exactly the mathematical relation of the two operands, whatever histories, hashers or pointer kinds produced them, including empty, equal, overlapping and size-mismatched operands.",
  ["histories","inputs"],"every pair of sets and every history producing them",
  "Tests compare a few literal sets; the ordered relations are merge walks whose early exits depend on the interleaving of the two element orders.",
  [HS,RS,H,R], m(("is_subset/is_disjoint merge walks",RS),("size shortcut and membership test",HS)),
  ["set relations and membership on pairs of sets"])
p("C07","Versions are immutable: no operation disturbs another version",
  "Once obtained, a version of any data structure keeps answering every query exactly as it did, whatever operations (persistent, in-place, mutable element access, cloning or dropping) are later applied to any other version, no matter how much internal structure the versions share. An in-place operation on one handle is visible through that handle only. This holds for every branching history of versions, in every order of creation, mutation and destruction.",
  ["histories","programs"],"every tree of versions produced by arbitrary interleavings of persistent and in-place operations on all eight structures",
  "Tests compare at most two or three versions after one operation; damage to a sibling needs particular sharing patterns and later in-place operations.",
  [L,Q,S,V,H,R,HS,RS,U], m(("copy on write through make_mut on every mutated node",V),("path copying",R),("utils::replace",U)),
  ["full contents of all live versions after each operation"])
p("C08","Persistent and in-place operations agree",
  "For every operation offered in both styles, the persistent form returns exactly the value that cloning and applying the in-place form yields, and the in-place form's result flag is true exactly when the persistent form returns a changed structure (or Some). An operation that reports failure (removing an absent key, dropping from an empty structure, setting out of range) leaves the structure exactly as it was. The two styles can be mixed freely with the same outcome.",
  ["histories","inputs"],"every structure state, operation and argument",
  "Tests exercise the two forms on separate fixed inputs and do not compare them across states.",
  [L,Q,S,V,H,R,HS,RS], m(("persistent forms clone then call the in-place form",V),("remove returns a clone when nothing changed",H)),
  ["result and full contents of both forms from the same state"])
p("C09","Iterators yield every element exactly once, in order",
  "Every iterator (iter, keys, values, references in for-loops) yields each element of its structure exactly once, in sequence order for the sequences and ascending key order for the ordered map and set, with keys and values lining up with iter; the double-ended ones yield the same elements from the back and never yield an element twice however front and back steps interleave. At every step size_hint (and len where offered) is exactly the number of elements left, and after exhaustion the iterator keeps returning None. The iterator adaptors (nth, last, count, fold, rev, skip and so on) agree with stepping.",
  ["inputs","histories","schedules"],"every content and internal shape, every interleaving of front and back steps",
  "Tests iterate a few sizes and one or two front/back interleavings.",
  [V,L,Q,H,R,HS,RS], m(("two independent stacks meeting in the middle",V),("lazy reversal",Q),("explicit stack over trie nodes",H),("size counter limits the range iterator",R)),
  ["iter/keys/values/rev/size_hint/nth"])
p("C10","Range queries return exactly the keys in range",
  "range() on RedBlackTreeMap and RedBlackTreeSet yields exactly the entries whose keys lie within the given bounds (included, excluded or unbounded at either end, whether or not the bound is itself a key), in ascending order from the front and descending order from the back, each at most once however front and back steps interleave. It panics exactly when the start is greater than the end, or both are equal and excluded, and never otherwise.",
  ["inputs","histories","schedules"],"every tree, pair of bounds, and interleaving of next and next_back",
  "Tests use a few bounds on one small map.",
  [R,RS], m(("dig_towards and clear_if_finished against both bounds",R),("is_remaining_range_empty",R)),
  ["RangeIter next/next_back results, panics"])
p("C11","Equality, ordering and hashing depend only on contents",
  "Two structures of the same kind compare equal exactly when their contents are equal, regardless of the histories, internal layouts, widths, degrees or pointer kinds behind them (a map that is ptr_eq to the other also counts as equal when it holds values that are not equal to themselves); equal structures feed identical data to a Hasher, and the data for unequal contents is never one a prefix of the other. Comparison of List, Stack, Queue, Vector and the ordered map and set is lexicographic over their iteration order, with partial_cmp, cmp, eq and the operators mutually consistent, including elements that are not comparable.",
  ["inputs","histories","configurations"],"all pairs of structures and histories",
  "Tests compare literals built one way; layouts that differ for equal contents (queue phase, tree shape, collision order, root compression) are hardly covered.",
  [L,S,Q,V,H,R,HS,RS], m(("length check then elementwise comparison",V),("size check and lookup",H),("length prefix in Hash",R)),
  ["==, partial_cmp, cmp, Hasher byte stream"])
p("C12","ptr_eq means shared content",
  "For the maps and sets, ptr_eq is true between a structure and itself or a fresh clone of it, and whenever ptr_eq returns true the two structures have the same contents. After one of two identical structures is changed by an insert or a successful remove, ptr_eq between them is false. A failed persistent remove returns a structure that is ptr_eq to its source.",
  ["histories"],"all pairs of versions in all histories, including different pointer kinds",
  "There are no dedicated tests of ptr_eq over histories; equality and subset tests short-circuit on it, so a wrong answer silently corrupts them.",
  [H,R,HS,RS], m(("root pointer comparison",R),("eq and is_subset short-circuit",HS)),
  ["ptr_eq on all pairs of live versions"])
p("C13","Serialization round-trips and has a stable shape",
  "Serializing any structure and deserializing the result yields an equal structure, for all contents and histories. Lists, stacks, queues, vectors and sets serialize as a sequence of exactly their elements in iteration order with the right length, and maps as a map of exactly their entries; deserializing accepts any such sequence or map, in the given order, with the last of duplicate map keys winning. Length hints offered by a deserializer, absent or wrong, never change the result or abort, and errors in the middle of the input are reported, not swallowed.",
  ["inputs","histories"],"all contents, internal layouts, deserializer length hints and error positions",
  "Tests round-trip one literal per structure through JSON with an honest format.",
  [L,S,Q,V,H,R,HS,RS], m(("collect_seq/collect_map",V),("visitors push back or push front over a reversed buffer",L)),
  ["Serializer call stream and deserialized contents"])
p("C14","Parallel iteration visits every entry exactly once",
  "Parallel iteration over a HashTrieMapSync delivers every entry exactly once across all worker pieces, for every trie shape (including collisions and single-chain branches), every way the work is split and every number of threads. If consumers ask to stop early, only genuine entries are delivered, still at most once each, and a consumer that never asks to stop receives everything.",
  ["schedules","inputs"],"every split/steal schedule, thread count, trie shape and stop point",
  "Tests run with whatever schedule occurs, and their keys never really collide.",
  [RY,H], m(("split halves a branch and descends singletons",RY),("fold stops on full",RY)),
  ["consumer pieces recorded by a custom rayon consumer"])
p("C15","Elements are released exactly when no version holds them",
  "Every element stored in a structure is dropped exactly once, and as soon as the last live version containing it is gone or has had it removed or replaced: at every moment the live elements are exactly those contained in some live version. No operation leaks an element, keeps a removed one alive, or releases one that a version still holds.",
  ["histories"],"all histories of updates, clones and drops, in any drop order",
  "Tests do not count live elements; a retained node or cached pointer is invisible to value assertions.",
  [L,Q,S,V,H,R], m(("last cleared when the list empties",L),("pop on drop_last and root compression",V),("iterative List drop",L)),
  ["drop counters in the element type"])
p("C16","Documented costs hold step by step",
  "Every operation stays within its documented cost, counted in pointer dereferences, allocations and key comparisons: constant for new, clone, len, first/last/peek/push/drop_first/pop on the linear structures, logarithmic for Vector, RedBlackTreeMap and their set (the ordered tree never degrades, whatever the insertion and deletion order), bounded by the hash depth for HashTrieMap, linear for full iteration, reversal and dropping, and amortized constant for dequeue along one history. In particular lookups never depend linearly on the number of elements when hashes differ.",
  ["histories","inputs"],"all histories and sizes, including adversarial insertion and deletion orders",
  "Wall-clock is not asserted anywhere and structure checks run only on small trees after particular histories.",
  [L,Q,S,V,H,R], m(("red-black invariants",R),("trie height from length",V),("degree and hash depth",H)),
  ["counting pointer kind and counting key comparisons"])
p("C17","Versions share structure and footprint is history-free",
  "A persistent update shares all but a bounded path with its source: it allocates at most a constant number of cells for the linear structures' constant-time operations and a number bounded by the tree height for the others, and cloning allocates nothing and never clones an element. The number of cells an unshared structure occupies depends only on its contents, not on the history that produced it (up to a constant), so removing elements gives their space back. Updates never clone elements; get_mut and index_mut clone at most the accessed element and only if another version shares it.",
  ["histories","inputs"],"all histories; all pairs of versions",
  "No test observes allocation or sharing.",
  [L,Q,S,V,H,R], m(("SharedPointer::make_mut path copying",V),("compress",H),("compress_root",V)),
  ["counting pointer kind (live cells, allocations), clone counters in elements"])
p("C18","Arbitrarily long chains never exhaust the stack",
  "Building, reversing, comparing, hashing, iterating, displaying, debug-printing, serializing and dropping a List, Stack, Queue or a map with many colliding keys uses a bounded amount of call stack however many elements there are. In particular dropping long lists is safe whatever versions share their tails, in whatever order versions are dropped, and under every interleaving of threads dropping versions that share nodes.",
  ["schedules","inputs","histories"],"all lengths, sharing patterns, drop orders, and thread interleavings of concurrent drops",
  "One test drops one long unshared list; the race between two owners releasing a shared chain needs a particular interleaving of reference-count operations.",
  [L,Q,S,H], m(("iterative Drop with try_unwrap",L)),
  ["nesting depth of drops under a scheduler-controlled pointer kind; processes with small stacks"])
p("C19","Thread-safe variants behave sequentially under every schedule",
  "When threads concurrently read, clone, update (through their own handles) and drop versions that share structure through the Sync variants, every thread observes exactly what it would observe running alone, under every interleaving of the underlying reference-count and copy-on-write steps. No shared cell is ever modified in place, and every element is released exactly once.",
  ["schedules"],"all interleavings of pointer operations of several threads on sharing versions",
  "No existing test is concurrent beyond type-level Send/Sync assertions.",
  [L,Q,S,V,H,R], m(("make_mut/try_unwrap uniqueness checks on Arc pointers",L),("no interior mutability",V)),
  ["per-thread results and the stream of pointer operations under a controlled scheduler"])
p("C20","Panicking callbacks never corrupt any version",
  "If user code invoked by an operation (key comparison, equality, hashing, element cloning, a source iterator or a deserializer) panics or fails part-way, every version that existed before the operation, including the one being updated in place, still holds exactly the contents it had before the operation (an interrupted extend may have appended a prefix of the items it had received), with consistent size, lookup and iteration. All later operations on all versions work normally. Nothing is leaked or released twice.",
  ["fault_sequences","histories"],"a panic at every callback invocation of every operation in every state",
  "No test injects a fault.",
  [H,R,V,L], m(("update order: callbacks run before links change",R),("list_remove_first on collision buckets",H)),
  ["contents of all versions after catch_unwind"])
p("C21","Bulk construction and rendering are faithful",
  "Collecting from an iterator, extending, and the initialization macros (plain and sync) produce exactly the items given: sequences hold them with iteration order the order given (stack! instead pushes its arguments in order, so the last is on top), maps and sets hold what inserting the items one at a time in order gives, with later duplicates winning. This holds whatever valid size hints the source iterator reports. Default and new are empty. Display renders exactly the elements in iteration order with the documented delimiters, and for maps key: value pairs.",
  ["inputs"],"all source iterators, lengths and size hints",
  "Tests collect from honest Vec iterators of fixed length.",
  [L,Q,S,V,H,R,HS,RS], m(("from_iter buffers and reverses",L),("list_reverse! macro",L)),
  ["contents after FromIterator/Extend/macros; Display strings"])
p("C22","Behaviour is the same in every configuration",
  "The observable behaviour of every structure is the same for every pointer kind (Rc, Arc, triomphe Arc or user-supplied), every accepted branching width or degree, every hasher, and with or without the std, serde and rayon features. Constructors accept exactly the parameters for which the structure works (any positive bit width below the machine word size, any power-of-two degree from two up to the word size) and reject all others by panicking at construction.",
  ["configurations","histories"],"all pointer kinds, widths, degrees, hashers and feature sets, with arbitrary histories",
  "Tests use the default configuration nearly everywhere, and the no_std build is only type-checked.",
  [V,H,L,R,U,"Cargo.toml"], m(("constructor assertions",H),("constructor assertions",V),("DefaultBuildHasher",U)),
  ["the same operation script replayed in each configuration"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
