------------------------------- MODULE Costs -------------------------------
(***************************************************************************)
(* What operations may cost.  A cost is a sequence                         *)
(*   dereferences, cells allocated, pointers cloned, comparisons,          *)
(*   equality tests, hashes, elements cloned, cells kept, heap             *)
(*   allocations, heap bytes                                               *)
(* and a bound is the same sequence as a function of the number of         *)
(* elements and, for tries, of the branching and of the number of keys     *)
(* that collide.  Constants leave room for other ways to write the same    *)
(* algorithms (about three times what the present code takes); what        *)
(* matters is how the bounds grow.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

HashBits == 64

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
RECURSIVE Bits(_)      \* how many binary digits
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
RECURSIVE TwoTo(_)
TwoTo(i) == IF i = 0 THEN 1 ELSE 2 * TwoTo(i - 1)
Div(a, b) == (a + b - 1) \div b

(* Bounds that depend on nothing. *)
Free   == <<8, 4, 10, 0, 0, 0, 0, 4, 8, 400>>
Short  == <<16, 10, 16, 0, 0, 0, 0, 10, 20, 1200>>
(* In proportion to m. *)
Linear(m) == <<8 * m + 30, 4 * m + 12, 8 * m + 30, 0, 0, 0, 0, 4 * m + 12, 6 * m + 20, 200 * m + 800>>
(* Passes over everything, building nothing. *)
Pass(m, space) == <<8 * m + 40, 0, 8 * m + 40, 0, 0, 0, 0, 0, 12 + 2 * Bits(m), space>>

Quiet(b, i) == [b EXCEPT ![i] = 0]

(* ---- lists, stacks, queues ---- *)
SeqCost(k, f, s, n) ==
  CASE f \in {"new", "clone", "unclone", "len", "size", "is_empty", "first", "last", "peek"} -> Free
    [] f \in {"push_front", "push", "enqueue", "drop_first", "pop"} -> Short
    [] f = "dequeue" -> Linear(n)          \* amortized: see AmortOK
    [] f = "reverse" -> Linear(n)
    [] f = "iter0" -> Free
    [] f = "step" /\ k # "queue" -> Free
    [] f = "step" /\ k = "queue" -> Pass(n, 64 * n + 400)
    [] f \in {"iter", "iter3"} -> IF k = "queue" \/ f = "iter" THEN Pass(n, 64 * n + 400)
                                  ELSE Pass(3, 400)
    [] f = "drop" -> Pass(n, 400)

(* ---- vectors ---- *)
Levels(n, bits) == Div(Bits(n), bits) + 1
Path(n, bits) ==
  LET h == Levels(n, bits)
      w == Min(TwoTo(Min(bits, 20)), 2 * n + 8)
  IN <<8 * h + 16, 3 * h + 8, (h + 2) * (w + 4) * 2, 0, 0, 0, 0, 3 * h + 8, 6 * h + 16,
       (h + 2) * (40 * w + 200)>>
Lookup(h) == <<4 * h + 10, 0, 2 * h + 8, 0, 0, 0, 0, 0, 8, 400>>
VecCost(f, s, n, bits) ==
  LET h == Levels(n, bits) IN
  CASE f \in {"clone", "unclone", "len", "is_empty"} -> Free
    [] f = "new" -> Short
    [] f \in {"get", "first", "last"} -> Lookup(h)
    [] f \in {"push_back", "set", "drop_last"} -> Path(n, bits)
    [] f \in {"get_mut", "index_mut"} ->
         [Path(n, bits) EXCEPT ![7] = IF s = "m" THEN 0 ELSE 1]
    [] f = "iter3" -> [Pass(3, 400 + 32 * h) EXCEPT ![1] = 20 * h + 40, ![3] = 20 * h + 40]
    [] f = "iter0" -> [Short EXCEPT ![10] = 400 + 32 * h, ![1] = 8 * h + 12, ![2] = 0]
    [] f = "step" -> [Short EXCEPT ![10] = 400 + 32 * h, ![1] = 8 * h + 12, ![2] = 0]
    [] f = "iter" -> Pass(2 * n + h, 400 + 32 * h)
    [] f = "drop" -> Pass(2 * n + h, 400 + 32 * h)

(* ---- ordered trees: twice the logarithm is as deep as they get ---- *)
Deep(n) == 2 * Bits(n) + 1
TreeCost(f, s, n) ==
  LET d == Deep(n)
      find == <<6 * d + 12, 0, 4 * d + 12, 3 * d + 3, 3 * d + 3, 0, 0, 0, 8, 400>>
      path == <<30 * d + 40, 6 * d + 16, 12 * d + 40, 5 * d + 6, 5 * d + 6, 0, 0, 6 * d + 16,
                8 * d + 20, 400 * d + 900>>
  IN
  CASE f \in {"clone", "unclone", "size", "is_empty"} -> Free
    [] f = "new" -> Short
    [] f \in {"get", "get_key_value", "contains", "contains_key"} -> find
    [] f \in {"first", "last"} -> [find EXCEPT ![4] = 0, ![5] = 0]
    [] f \in {"insert", "remove"} -> path
    [] f = "get_mut" -> [path EXCEPT ![7] = IF s = "m" THEN 0 ELSE 2]
    [] f = "iter3" -> [Pass(3, 400 + 64 * d) EXCEPT ![1] = 8 * d + 60, ![3] = 8 * d + 60]
    [] f = "range3" -> [Pass(3, 400 + 64 * d) EXCEPT
                          ![1] = 12 * d + 60, ![3] = 12 * d + 60, ![4] = 6 * d + 30, ![5] = 6 * d + 30]
    [] f \in {"iter0", "step"} -> [Short EXCEPT ![10] = 600 + 64 * d, ![1] = 8 * d + 24, ![2] = 0]
    [] f \in {"iter", "drop"} -> Pass(2 * n + d, 600 + 64 * d)

(* ---- hash tries: w branches, bk keys with the same hash as the one asked for ---- *)
Depth(w) == Div(HashBits, Bits(w) - 1) + 1
HashCost(f, s, n, w, bk, hm) ==
  LET h == Depth(w)
      \* modes in which the low bits tell keys apart
      spread == hm \in {0, 7, 13}
      find == <<4 * h + 10 * bk + 16, 0, 2 * h + 4 * bk + 8, 0, 4 * bk + 4, 4, 0, 0, 8, 400>>
      path == <<10 * h + 20 * bk + 60, 3 * h + 6 * bk + 12, (h + 2) * (w + 6) + 8 * bk + 30, 0,
                6 * bk + 3 * h + 6, 4, 0, 3 * h + 6 * bk + 12, 6 * h + 8 * bk + 30,
                h * (24 * w + 300) + 240 * bk + 1500>>
      \* a key more: looking for it passes all that collide with it, which are shared
      grow == [path EXCEPT ![2] = 3 * h + 12, ![3] = (h + 2) * (w + 6) + 4 * bk + 30,
                           ![8] = 3 * h + 12, ![9] = 6 * h + 30, ![10] = h * (24 * w + 300) + 1500]
      nodes == IF spread THEN 4 * n + 2 * h ELSE (n + 1) * (h + 1)
  IN
  CASE f \in {"clone", "unclone", "size", "is_empty"} -> Free
    [] f = "new" -> Short
    [] f \in {"get", "get_key_value", "contains", "contains_key"} -> find
    [] f = "insert_new" -> grow
    [] f \in {"insert", "remove"} -> path
    [] f = "get_mut" -> [path EXCEPT ![7] = IF s = "m" THEN 0 ELSE 2]
    [] f = "iter3" -> [Pass(3, 4000 + 400 * h) EXCEPT ![1] = 8 * h + 60, ![3] = 8 * h + 60]
    [] f \in {"iter0", "step"} -> [Short EXCEPT ![10] = 4000 + 400 * h, ![1] = 8 * h + 24, ![2] = 0]
    [] f \in {"iter", "drop"} -> Pass(nodes, 4000 + 400 * h)

Bound(e) ==
  CASE e.k \in {"list", "stack", "queue"} -> SeqCost(e.k, e.f, e.s, e.n)
    [] e.k = "vector" -> VecCost(e.f, e.s, e.n, e.bits)
    [] e.k \in {"tmap", "tset"} -> TreeCost(e.f, e.s, e.n)
    [] e.k \in {"hmap", "hset"} -> HashCost(e.f, e.s, e.n, e.w, e.bk, e.hm)

(* The most that operations of one sort took, at sizes up to n. *)
CostOK(e) == LET b == Bound(e) IN \A i \in 1..10 : e.x[i] <= b[i]

(* Along one history, m operations on a queue cost as much as m constants. *)
AmortOK(e) ==
  e.k = "queue" =>
    LET b == Linear(e.m) IN \A i \in 1..10 : e.x[i] <= b[i]

(* Lookups in an ordered tree of n entries, when one level takes `per` comparisons. *)
DepthOK(e) == e.hi <= e.per * Deep(e.n)

(* Looking up m keys in a trie whose hashes spread: a logarithm each, with a small base. *)
BulkOK(e) ==
  LET h == Div(Bits(e.n), Bits(e.w) - 1)
  IN /\ e.x[1] <= e.m * (5 * h + 12)
     /\ e.x[5] <= 3 * e.m

(* The cells occupied, and those of a structure built anew; what is left when that is dropped. *)
FootOK(e) ==
  /\ e.cells - e.base \in -3..3
  /\ e.left = 0
  /\ e.n = 0 => e.cells <= 3
  /\ e.k \in {"list", "stack", "queue", "tmap", "tset"} => e.cells <= 4 * e.n + 4

(* Mutable access: an entry that another version holds too is copied once. *)
AccessOK(e) == e.clones <= (IF e.sh = 0 \/ e.there = 0 THEN 0 ELSE IF e.k = "vector" THEN 1 ELSE 2)

(* Stack, in bytes, whatever the length; nested releases.  Trees and tries are as deep as they
   have levels. *)
DeepOK(e) ==
  IF e.k \in {"list", "stack", "queue"} THEN e.peak <= 49152 /\ e.depth <= 12
  ELSE e.peak <= 250000 /\ e.depth <= 4 * HashBits

=============================================================================
