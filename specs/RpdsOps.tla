------------------------------ MODULE RpdsOps ------------------------------
(***************************************************************************)
(* The abstract semantics of the public interface of rpds: what every      *)
(* operation of every data structure does to the abstract contents of one  *)
(* version and what it returns.  Nothing here knows how the structures     *)
(* are laid out.                                                           *)
(*                                                                         *)
(* Elements are integer codes: code = class * Tag + tag.  Equality, order  *)
(* and hash of the elements look at the class alone, so that equal         *)
(* elements can be told apart by their tag.                                *)
(*                                                                         *)
(* Contents:                                                               *)
(*   list, stack, queue, vector   a sequence of codes                      *)
(*   hmap, tmap                   a function class |-> <<key, value>>      *)
(*   hset, tset                   a function class |-> <<key>>             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Tag == 1024
NanCls == 4000
Cls(e) == e \div Tag

Panicked == <<-7>>

SeqKinds == {"list", "stack", "queue", "vector"}
MapKinds == {"hmap", "tmap"}
SetKinds == {"hset", "tset"}
Unordered == {"hmap", "hset"}
Kinds == SeqKinds \union MapKinds \union SetKinds

EmptyFun == [x \in {} |-> <<>>]
Empty(k) == IF k \in SeqKinds THEN <<>> ELSE EmptyFun
Size(k, c) == IF k \in SeqKinds THEN Len(c) ELSE Cardinality(DOMAIN c)

Bit(b) == IF b THEN 1 ELSE 0

Put(c, e) == (Cls(e[1]) :> e) @@ c
Del(c, x) == [y \in (DOMAIN c) \ {x} |-> c[y]]

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

(* The keys in ascending order. *)
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

(* The contents in the order in which an ordered structure iterates. *)
Items(k, c) ==
  CASE k \in SeqKinds -> c
    [] k = "tmap" -> LET s == Sorted(DOMAIN c) IN [i \in 1..Len(s) |-> c[s[i]]]
    [] k = "tset" -> LET s == Sorted(DOMAIN c) IN [i \in 1..Len(s) |-> c[s[i]][1]]

ItemSet(k, c) ==
  IF k \in MapKinds THEN {c[x] : x \in DOMAIN c} ELSE {c[x][1] : x \in DOMAIN c}

(* What one iteration yields is exactly the contents. *)
Shows(k, c, o) ==
  IF k \in Unordered
  THEN /\ Len(o) = Cardinality(DOMAIN c)
       /\ {o[i] : i \in 1..Len(o)} = ItemSet(k, c)
  ELSE o = Items(k, c)

----------------------------------------------------------------------------
(* Mutating operations: the new contents, and whether the operation did    *)
(* anything (what the in-place form returns).  `old` is what get_mut and   *)
(* index_mut saw before writing.                                           *)

R(c, ok) == [c |-> c, ok |-> ok, old |-> <<>>]

FromPairs(a) == FoldLeft(LAMBDA acc, i : Put(acc, <<a[2 * i - 1], a[2 * i]>>),
                         EmptyFun, [i \in 1..(Len(a) \div 2) |-> i])
FromElems(a) == FoldLeft(LAMBDA acc, e : Put(acc, <<e>>), EmptyFun, a)

(* Collecting the items `a`, in order. *)
Collect(k, a) ==
  CASE k \in {"list", "queue", "vector"} -> a
    \* A stack is collected like its list of elements: the first item is on the top.
    [] k = "stack" -> a
    [] k \in MapKinds -> FromPairs(a)
    [] k \in SetKinds -> FromElems(a)


Mut(k, f, c, a) ==
  CASE f \in {"push_front", "push"} -> R(<<a[1]>> \o c, TRUE)
    [] f \in {"push_back", "enqueue"} -> R(Append(c, a[1]), TRUE)
    [] f \in {"drop_first", "pop", "dequeue"} ->
         IF c = <<>> THEN R(c, FALSE) ELSE R(Tail(c), TRUE)
    [] f = "drop_last" -> IF c = <<>> THEN R(c, FALSE) ELSE R(Front(c), TRUE)
    [] f = "reverse" -> R(Reverse(c), TRUE)
    [] f = "extend" -> R(c \o a, TRUE)
    [] f = "set" ->
         IF a[1] >= Len(c) THEN R(c, FALSE)
         ELSE R([c EXCEPT ![a[1] + 1] = a[2]], TRUE)
    [] f \in {"get_mut", "index_mut"} /\ k = "vector" ->
         IF a[1] >= Len(c) THEN R(c, FALSE)
         ELSE [c |-> [c EXCEPT ![a[1] + 1] = a[2]], ok |-> TRUE, old |-> <<c[a[1] + 1]>>]
    [] f = "insert" -> R(Put(c, a), TRUE)
    [] f = "remove" ->
         IF Cls(a[1]) \in DOMAIN c THEN R(Del(c, Cls(a[1])), TRUE) ELSE R(c, FALSE)
    [] f = "get_mut" ->
         LET x == Cls(a[1]) IN
         IF x \in DOMAIN c
         THEN [c |-> [c EXCEPT ![x] = <<@[1], a[2]>>], ok |-> TRUE, old |-> <<c[x][2]>>]
         ELSE R(c, FALSE)

Infallible == {"push_front", "push", "push_back", "enqueue", "reverse", "extend", "insert"}

(* What the call returns, in each style. *)
Ret(f, style, m) ==
  CASE f \in Infallible -> <<>>
    [] f = "remove" /\ style = "p" -> <<>>     \* always returns a map
    [] f = "index_mut" /\ ~m.ok -> Panicked
    [] OTHER -> <<Bit(m.ok)>> \o m.old

(* The persistent form hands out a new version unless it returns None. *)
Yields(f, m) == m.ok \/ f = "remove"

----------------------------------------------------------------------------
(* Queries. *)

Opt(present, x) == IF present THEN <<1>> \o x ELSE <<0>>

Query(k, f, c, a) ==
  CASE f \in {"len", "size"} -> <<Size(k, c)>>
    [] f = "is_empty" -> <<Bit(Size(k, c) = 0)>>
    [] f = "first" /\ k \in SeqKinds -> IF c = <<>> THEN <<0>> ELSE <<1, c[1]>>
    [] f = "peek" -> IF c = <<>> THEN <<0>> ELSE <<1, c[1]>>
    [] f = "last" /\ k \in SeqKinds -> IF c = <<>> THEN <<0>> ELSE <<1, c[Len(c)]>>
    [] f = "get" /\ k = "vector" -> IF a[1] < Len(c) THEN <<1, c[a[1] + 1]>> ELSE <<0>>
    [] f = "index" /\ k = "vector" -> IF a[1] < Len(c) THEN <<c[a[1] + 1]>> ELSE Panicked
    [] f = "get" /\ k \in MapKinds ->
         LET x == Cls(a[1]) IN IF x \in DOMAIN c THEN <<1, c[x][2]>> ELSE <<0>>
    [] f = "index" /\ k \in MapKinds ->
         LET x == Cls(a[1]) IN IF x \in DOMAIN c THEN <<c[x][2]>> ELSE Panicked
    [] f \in {"get_key_value", "get"} ->
         LET x == Cls(a[1]) IN IF x \in DOMAIN c THEN <<1>> \o c[x] ELSE <<0>>
    [] f \in {"contains_key", "contains"} -> <<Bit(Cls(a[1]) \in DOMAIN c)>>
    [] f = "first" -> IF DOMAIN c = {} THEN <<0>> ELSE <<1>> \o c[MinOf(DOMAIN c)]
    [] f = "last" -> IF DOMAIN c = {} THEN <<0>> ELSE <<1>> \o c[MaxOf(DOMAIN c)]

(* is_disjoint, is_subset, is_superset *)
Relations(c, d) ==
  << Bit(DOMAIN c \intersect DOMAIN d = {}), Bit(DOMAIN c \subseteq DOMAIN d),
     Bit(DOMAIN d \subseteq DOMAIN c) >>

----------------------------------------------------------------------------
(* Equality and order of contents. *)

ElEq(x, y) == Cls(x) = Cls(y) /\ Cls(x) # NanCls
SeqEq(c, d) == Len(c) = Len(d) /\ \A i \in 1..Len(c) : ElEq(c[i], d[i])
MapEq(c, d) == DOMAIN c = DOMAIN d /\ \A x \in DOMAIN c : ElEq(c[x][2], d[x][2])
SetEq(c, d) == DOMAIN c = DOMAIN d
ContentEq(k, c, d) ==
  CASE k \in SeqKinds -> SeqEq(c, d)
    [] k \in MapKinds -> MapEq(c, d)
    [] k \in SetKinds -> SetEq(c, d)

(* Orders are -1, 0, 1, and 2 for "not comparable". *)
IntCmp(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
ElCmp(x, y) == IF Cls(x) = NanCls \/ Cls(y) = NanCls THEN 2 ELSE IntCmp(Cls(x), Cls(y))
Min2(x, y) == IF x < y THEN x ELSE y

RECURSIVE LexFrom(_, _, _)
LexFrom(c, d, i) ==
  IF i > Len(c) \/ i > Len(d) THEN IntCmp(Len(c), Len(d))
  ELSE LET o == ElCmp(c[i], d[i]) IN IF o = 0 THEN LexFrom(c, d, i + 1) ELSE o
SeqCmp(c, d) == LexFrom(c, d, 1)

(* The sequence of elements compared for a kind: maps compare key, value, key, value, ... *)
FlatItems(k, c) ==
  IF k = "tmap"
  THEN LET s == Sorted(DOMAIN c) IN
       [i \in 1..(2 * Len(s)) |-> c[s[(i + 1) \div 2]][IF i % 2 = 1 THEN 1 ELSE 2]]
  ELSE Items(k, c)
ContentCmp(k, c, d) == SeqCmp(FlatItems(k, c), FlatItems(k, d))

----------------------------------------------------------------------------
(* Iterators.  An iterator is the sequence of what is left.  One step of a *)
(* session is <<code, arg, results, lo, hi, len>>; see ds.rs for the codes.*)

Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Drop(s, n) == SubSeq(s, Min2(n, Len(s)) + 1, Len(s))
DropEnd(s, n) == SubSeq(s, 1, Len(s) - Min2(n, Len(s)))
Nth(s, n) == IF n < Len(s) THEN <<s[n + 1]>> ELSE <<>>

StepLeft(s, code, n) ==
  CASE code = 9 -> s
    [] code = 0 -> Drop(s, 1)
    [] code = 1 -> DropEnd(s, 1)
    [] code \in {2, 5} -> Drop(s, n + 1)
    [] code \in {3, 7} -> DropEnd(s, n + 1)
    [] code = 4 -> Drop(s, n)
    [] code = 6 -> DropEnd(s, n)
    [] OTHER -> <<>>

StepYield(s, code, n) ==
  CASE code = 9 -> <<>>
    [] code = 0 -> Nth(s, 0)
    [] code = 1 -> Nth(Reverse(s), 0)
    [] code \in {2, 5, 20} -> Nth(s, n)
    [] code \in {3, 7, 21} -> Nth(Reverse(s), n)
    [] code = 4 -> Take(s, n)
    [] code = 6 -> Take(Reverse(s), n)
    [] code = 10 -> <<Len(s)>>
    [] code = 11 -> Nth(Reverse(s), 0)
    [] code \in {12, 13, 18} -> s
    [] code = 14 -> Drop(s, n)
    [] code = 15 -> [i \in 1..((Len(s) + n) \div (n + 1)) |-> s[(i - 1) * (n + 1) + 1]]
    [] code \in {16, 17} -> Reverse(s)
    [] code = 19 -> <<>>
    [] code = 22 -> IF n < Len(s) THEN <<n>> ELSE <<>>

(* After each step that does not consume the iterator the hint is right:   *)
(* exact for the exact iterators, valid for the others.                    *)
HintOK(left, st, exact) ==
  IF st[1] >= 10 THEN TRUE
  ELSE IF exact THEN st[4] = left /\ st[5] = left /\ st[6] \in {-1, left}
     ELSE st[4] <= left /\ (IF st[5] = -1 THEN TRUE ELSE st[5] >= left) /\ st[6] \in {-1, left}

RECURSIVE SessionOK(_, _, _, _)
SessionOK(s, steps, i, exact) ==
  IF i > Len(steps) THEN TRUE
  ELSE LET st == steps[i]
           left == StepLeft(s, st[1], st[2])
       IN /\ st[3] = StepYield(s, st[1], st[2])
          /\ HintOK(Len(left), st, exact)
          /\ SessionOK(left, steps, i + 1, exact)

(* A bound is <<kind, code>>: 0 unbounded, 1 included, 2 excluded. *)
AboveLo(x, lo) == lo[1] = 0 \/ x > Cls(lo[2]) \/ (lo[1] = 1 /\ x = Cls(lo[2]))
BelowHi(x, hi) == hi[1] = 0 \/ x < Cls(hi[2]) \/ (hi[1] = 1 /\ x = Cls(hi[2]))
RangeKeys(c, lo, hi) == {x \in DOMAIN c : AboveLo(x, lo) /\ BelowHi(x, hi)}
RangePanics(lo, hi) ==
  /\ lo[1] # 0 /\ hi[1] # 0
  /\ \/ Cls(lo[2]) > Cls(hi[2])
     \/ lo[1] = 2 /\ hi[1] = 2 /\ Cls(lo[2]) = Cls(hi[2])
RangeItems(k, c, lo, hi) ==
  LET s == Sorted(RangeKeys(c, lo, hi)) IN
  [i \in 1..Len(s) |-> IF k = "tmap" THEN c[s[i]] ELSE c[s[i]][1]]

----------------------------------------------------------------------------
(* Display, given the order of iteration `o`; the formatting options (1: a sign, 2: ten digits) *)
(* are those of the elements.                                                                  *)
Element(x, how) ==
  LET s == ToString(x) IN
  IF how = 1 THEN "+" \o s ELSE IF how = 2 THEN SubSeq("0000000000", 1, 10 - Len(s)) \o s ELSE s
RECURSIVE JoinFrom(_, _, _, _)
JoinFrom(k, o, i, how) ==
  IF i > Len(o) THEN ""
  ELSE (IF i > 1 THEN ", " ELSE "")
       \o (IF k \in MapKinds THEN Element(o[i][1], how) \o ": " \o Element(o[i][2], how)
           ELSE Element(o[i], how))
       \o JoinFrom(k, o, i + 1, how)
Opening(k) == IF k \in {"hmap", "tmap", "hset", "tset"} THEN "{"
              ELSE IF k = "stack" THEN "Stack(" ELSE IF k = "queue" THEN "Queue(" ELSE "["
Closing(k) == IF k \in {"hmap", "tmap", "hset", "tset"} THEN "}"
              ELSE IF k \in {"stack", "queue"} THEN ")" ELSE "]"
Displayed(k, o, how) == Opening(k) \o JoinFrom(k, o, 1, how) \o Closing(k)
=============================================================================
