"""What each check does, in words: the manifest's `technique` and `level_note`, the evidence's explanation."""

A = "ApiTrace"
TRACE = "traces recorded from the real code validated against the TLA+ specification ApiTrace (TLC)"
REPLAY = "every transition of a TLC-explored TLA+ specification taken in the real code"
CASES = "independent cases recorded from the real code validated against CaseTrace (TLC)"
BIG = "large structures validated as runs (RunOps, itself model checked against RpdsOps)"

COMMON = (" Bounds: model checked specifications up to the sizes of their .cfg files (DESIGN.md, 'The"
          " specifications'); traces are seeded random histories. Trusted: TLC, the harness's encoding of calls"
          " and results, rustc.")

# property: (technique, what is covered)
T = {
 "C01": (f"VectorImpl.tla model checked and {REPLAY}; {TRACE}; {BIG}",
   "VectorImpl explores every shape of the trie near every change of height for bit widths 1 to 10, 16 and 63 and"
   " checks that it refines the abstract sequence; the explored transitions and queries are taken in the real Vector."
   " Random histories over all bit widths, with indexes far out of range, and vectors of up to 140000 elements whose"
   " contents the specification knows as runs, are accepted event by event."),
 "C02": (f"ListHeap.tla model checked and {REPLAY}; {TRACE}; {BIG}",
   "ListHeap explores every history of several handles on lists that share nodes, with reference counts, and checks"
   " that first, last, length and contents are those of the abstract list; the same histories are taken in List and"
   " Stack. Random histories and lists of up to 140000 elements."),
 "C03": (f"QueueImpl.tla and Versions.tla model checked and {REPLAY}; {TRACE}; {BIG}",
   "QueueImpl explores every division of the elements over the two lists up to its bound, Versions every short"
   " history on two handles; both are taken in the real Queue. Random histories, queues of up to 140000 elements"
   " churned through."),
 "C04": (f"HashTrieImpl.tla model checked and {REPLAY}; {TRACE}; {BIG}",
   "HashTrieImpl explores every set of keys out of six hash layouts (all the same hash, a difference in the last"
   " digit only, in the first, everywhere) at degrees 2, 8, 16 and 64, with the shape of the trie as an invariant;"
   " transitions and queries are taken in the real map with those very hashes. Random histories use fourteen hashers,"
   " all degrees and borrowed lookups."),
 "C05": (f"RedBlackImpl.tla model checked and {REPLAY}; {TRACE}; {BIG}",
   "RedBlackImpl is Okasaki's insertion and Kahrs's deletion as in the code: all trees over up to 8 keys (10 in the"
   " thorough tier), with search order, colours and black heights as invariants; every insertion, removal and query"
   " at every tree is taken in the real map, from scratch and in place."),
 "C06": (f"RedBlackImpl.tla and HashTrieImpl.tla for sets and {REPLAY}; {CASES}",
   "Thousands of pairs of sets, made by recorded histories with different hashers, degrees and pointer kinds (empty,"
   " equal, nested, touching, disjoint, of unequal size): every relation is the one of the abstract sets."),
 "C07": (f"Versions.tla and ListHeap.tla model checked and {REPLAY} watching all handles; {TRACE}",
   "Versions explores every history of the mutating operations on two handles up to its depth for all eight kinds;"
   " each is taken in the real code and after each call all handles are compared with the specification. In random"
   " histories over eight handles every event observes several of them."),
 "C08": (f"{REPLAY} in both styles; {TRACE}",
   "Each explored transition is taken in the persistent and in the in-place style, result flags included. Random"
   " histories mix both styles on clones, with many operations that fail."),
 "C09": (f"Cursor.tla model checked and every path through its transitions taken with real iterators;"
   f" iterator sessions recorded from the real code validated against ApiTrace (TLC); {BIG}",
   "All sequences of next, next_back, nth and nth_back on every iterator of structures of up to six elements (eight in"
   " the thorough tier) with several histories. Every kind of iterator on every shape random histories make: next, next_back, nth, nth_back, take, find, fold,"
   " rfold, count, last, skip, step_by, position and so on in random order, the hint and len after each step."),
 "C10": (f"Cursor.tla with ranges model checked and every path through its transitions taken with real range"
   f" iterators; range sessions recorded from the real code validated against ApiTrace (TLC); {BIG}",
   "All pairs of bounds of both kinds around up to five keys (six in the thorough tier), and for each all sequences of"
   " steps from both ends. Ranges of all nine kinds of bounds, on and between keys, reversed and empty ones too, consumed from both ends;"
   " which ranges panic is part of the specification."),
 "C11": (f"{CASES}: equality, order and hash of pairs; {BIG}",
   "Pairs of structures made by different histories, degrees, bit widths and pointer kinds, with elements that are"
   " not comparable with themselves: eq, ne, partial_cmp, cmp, the operators, and what is fed to a Hasher."),
 "C12": (f"{TRACE}",
   "In random histories of maps and sets, ptr_eq between all pairs of eight handles: never true of handles with"
   " different contents, false right after a change, true for itself, fresh clones and failed removals."),
 "C13": (f"{CASES}: serializer and deserializer sessions; {BIG}",
   "A recording Serializer shows the shape and the announced lengths; a scripted Deserializer gives sequences and"
   " maps with absent, right and wrong hints, duplicates, and errors at every position."),
 "C14": (f"{CASES}: parallel iteration with scripted splits; {BIG}",
   "The producer is split by a scripted schedule and consumed by folders that ask to stop anywhere, and by rayon's"
   " own pool, over tries of all hash layouts: which piece got which entry is recorded and validated."),
 "C15": (f"{TRACE}: live elements; ListHeap and Race check releases in the model",
   "Elements have identities and register their creation and drop: at every 'live' event the elements alive are"
   " exactly those of the live versions, and none was dropped twice."),
 "C16": (f"costs recorded from the real code validated against Costs.tla (TLC); {REPLAY} with counting pointers",
   "Dereferences, allocations, pointer clones, comparisons, hashes, element clones, heap allocations and bytes of"
   " every operation along histories meant to be expensive, against bounds as functions of size, width and colliding"
   " keys. Constants are about three times what the code takes today; what is decided is how costs grow."),
 "C17": (f"costs and footprints recorded from the real code validated against Costs.tla (TLC)",
   "Cells kept by persistent updates, cells a structure occupies after any history compared with one built anew,"
   " element clones of mutable access."),
 "C18": (f"stack use recorded from the real, unoptimized code validated against Costs.tla; Race.tla model checked and its"
         " schedules taken with real threads",
   "Lists, stacks, queues of 20000 to 300000 elements dropped, compared, printed, hashed, serialized ... on a painted"
   " stack, in a build where no recursion becomes a loop. Race.tla bounds how deep releases nest when threads drop"
   " lists that share nodes, under every interleaving."),
 "C19": ("Race.tla model checked and its schedules taken with real threads; thread programs under explored schedules"
         " validated against CaseTrace (TLC)",
   "Race explores every interleaving of the reference-count steps of up to three threads. The harness takes paths that"
   " cover all its transitions with a pointer kind that yields at each step, and random programs of all eight kinds"
   " under thousands of schedules; also free-running threads on the real Arc kinds."),
 "C20": (f"faults injected at every kind of callback, {TRACE}",
   "In random histories the n-th comparison, equality test, hash, clone, iterator step or deserializer step panics or"
   " fails: the specification says what every handle still holds, that nothing leaked, and what later calls do."),
 "C21": (f"{CASES}: collecting, macros, rendering",
   "Sources of all lengths with honest and extreme size hints, macros, Default; Display with formatting options."),
 "C22": (f"constructors and large structures validated against CaseTrace (TLC); {REPLAY} for each pointer kind; traces of"
         " the build without features validated against ApiTrace",
   "All bit widths and degrees of a byte are accepted or refused; accepted ones work at sizes around their changes of"
   " height; the same model transitions hold for Rc, Arc, triomphe and a user-supplied pointer kind; without std,"
   " serde and rayon the same traces are accepted."),
}
