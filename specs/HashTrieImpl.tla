---------------------------- MODULE HashTrieImpl ----------------------------
(***************************************************************************)
(* The hash trie of HashTrieMap and HashTrieSet: branches indexed by the   *)
(* digits of the hash, leaves with one entry, and lists of colliding       *)
(* entries where the hash is used up.  Checked:                            *)
(*   - every operation refines RpdsOps (contents and result),              *)
(*   - every entry is on the path of its hash, collisions are only at the  *)
(*     bottom and have at least two entries, there are no empty branches   *)
(*     below the root and none that holds a lone entry,                    *)
(*   - a lookup by walking finds what the contents say,                    *)
(*   - iteration by a stack of nodes yields every entry once.              *)
(* Every transition is printed, to be taken in the real code.              *)
(***************************************************************************)
EXTENDS RpdsOps, Json

CONSTANTS Keys,     \* keys that are inserted
          Ghosts,   \* keys that are only asked for
          Vals, K, Emit,
          Degree,
          Digits(_) \* the digits of the hash of a key, least significant first

VARIABLES root, size, last
vars == <<root, size, last>>

Levels == Len(Digits(CHOOSE k \in Keys : TRUE))
Zeros(n) == [i \in 1..n |-> 0]

(* A degree 64 trie has 11 levels, the last of 4 bits. *)
DigitsDeep(k) ==
  CASE k \in {0, 1, 2, 3} -> Zeros(11)
    [] k \in {4, 7} -> [Zeros(11) EXCEPT ![11] = 15]
    [] k = 5 -> [Zeros(11) EXCEPT ![5] = 63]
    [] k = 6 -> [Zeros(11) EXCEPT ![1] = 63, ![2] = 32]
(* Wide branches. *)
DigitsWide(k) ==
  CASE k = 0 -> [Zeros(11) EXCEPT ![1] = 2]
    [] k = 1 -> Zeros(11)
    [] k = 2 -> [Zeros(11) EXCEPT ![1] = 1]
    [] k = 3 -> [Zeros(11) EXCEPT ![1] = 31]
    [] k = 4 -> [Zeros(11) EXCEPT ![1] = 32]
    [] k = 5 -> [Zeros(11) EXCEPT ![1] = 62]
    [] k = 6 -> [Zeros(11) EXCEPT ![1] = 63]
    [] k = 7 -> [Zeros(11) EXCEPT ![1] = 63, ![2] = 63]
    [] k = 8 -> [Zeros(11) EXCEPT ![1] = 63, ![2] = 1]
(* A degree 2 trie has 64 levels. *)
DigitsTwo(k) ==
  CASE k \in {0, 1, 2} -> Zeros(64)
    [] k = 3 -> [Zeros(64) EXCEPT ![64] = 1]
    [] k \in {4, 7} -> [Zeros(64) EXCEPT ![1] = 1]
    [] k = 5 -> [Zeros(64) EXCEPT ![1] = 1, ![64] = 1]
    [] k = 6 -> [Zeros(64) EXCEPT ![33] = 1]
(* A degree 8 trie has 22 levels, the last of one bit. *)
DigitsEight(k) ==
  CASE k \in {0, 1, 2} -> [Zeros(22) EXCEPT ![22] = 1, ![1] = 7]
    [] k \in {3, 4} -> [Zeros(22) EXCEPT ![1] = 7]
    [] k = 5 -> [Zeros(22) EXCEPT ![1] = 7, ![2] = 7]
    [] k = 6 -> Zeros(22)
    [] k = 7 -> [Zeros(22) EXCEPT ![1] = 7, ![3] = 1]
(* Everything collides. *)
DigitsSame(k) == [i \in 1..16 |-> 15]

----------------------------------------------------------------------------
Branch(f) == <<"B", f>>
Single(e) == <<"S", e>>
Collision(es) == <<"C", es>>
IsBranch(n) == n[1] = "B"
Child(n, i) == n[2][i]
Has(n, i) == i \in DOMAIN n[2]

Code(k) == k * Tag
VCode(v) == 10000000 + v
Entry(k, v) == IF K = "hmap" THEN <<Code(k), VCode(v)>> ELSE <<k * Tag + v>>
KeyOf(e) == Cls(e[1])
Dig(k, d) == Digits(k)[d + 1]
SameHash(a, b) == Digits(a) = Digits(b)

Index(es, k) == IF \E i \in 1..Len(es) : KeyOf(es[i]) = k
                THEN MinOf({i \in 1..Len(es) : KeyOf(es[i]) = k}) ELSE 0
Without(es, k) == IF Index(es, k) = 0 THEN es
                      ELSE SubSeq(es, 1, Index(es, k) - 1) \o SubSeq(es, Index(es, k) + 1, Len(es))

BucketInsert(n, e) ==
  IF n[1] = "S"
  THEN IF KeyOf(n[2]) = KeyOf(e) THEN [n |-> Single(e), new |-> FALSE]
       ELSE [n |-> Collision(<<e, n[2]>>), new |-> TRUE]
  ELSE [n |-> Collision(<<e>> \o Without(n[2], KeyOf(e))), new |-> Index(n[2], KeyOf(e)) = 0]

RECURSIVE Ins(_, _, _)
Ins(n, e, d) ==
  IF IsBranch(n)
  THEN LET i == Dig(KeyOf(e), d) IN
       IF Has(n, i)
       THEN LET s == Ins(Child(n, i), e, d + 1)
            IN [n |-> Branch((i :> s.n) @@ n[2]), new |-> s.new]
       ELSE [n |-> Branch((i :> Single(e)) @@ n[2]), new |-> TRUE]
  ELSE IF d = Levels THEN BucketInsert(n, e)
  ELSE IF KeyOf(n[2]) = KeyOf(e) THEN BucketInsert(n, e)
  ELSE [n |-> Ins(Ins(Branch(EmptyFun), n[2], d).n, e, d).n, new |-> TRUE]

Compress(n) ==
  IF IsBranch(n) /\ Cardinality(DOMAIN n[2]) = 1
  THEN LET c == n[2][CHOOSE i \in DOMAIN n[2] : TRUE] IN IF c[1] = "S" THEN c ELSE n
  ELSE n

RECURSIVE Rem(_, _, _)
Rem(n, k, d) ==
  IF IsBranch(n)
  THEN LET i == Dig(k, d) IN
       IF ~Has(n, i) THEN [n |-> n, rem |-> FALSE]
       ELSE LET s == Rem(Child(n, i), k, d + 1) IN
            IF ~s.rem THEN [n |-> n, rem |-> FALSE]
            ELSE IF IsBranch(s.n) /\ DOMAIN s.n[2] = {}
                 THEN [n |-> Compress(Branch([j \in (DOMAIN n[2]) \ {i} |-> n[2][j]])), rem |-> TRUE]
                 ELSE [n |-> Compress(Branch((i :> s.n) @@ n[2])), rem |-> TRUE]
  ELSE IF n[1] = "S"
  THEN IF SameHash(KeyOf(n[2]), k) /\ KeyOf(n[2]) = k
       THEN [n |-> Branch(EmptyFun), rem |-> TRUE]
       ELSE [n |-> n, rem |-> FALSE]
  ELSE LET es == Without(n[2], k) IN
       [n |-> IF Len(es) = 1 THEN Single(es[1]) ELSE Collision(es), rem |-> Len(es) < Len(n[2])]

RECURSIVE Write(_, _, _, _)
Write(n, k, v, d) ==
  IF IsBranch(n)
  THEN LET i == Dig(k, d) IN
       IF Has(n, i) THEN Branch((i :> Write(Child(n, i), k, v, d + 1)) @@ n[2]) ELSE n
  ELSE IF n[1] = "S"
  THEN IF KeyOf(n[2]) = k THEN Single(<<n[2][1], v>>) ELSE n
  ELSE LET j == Index(n[2], k) IN
       IF j = 0 THEN n ELSE Collision(<< <<n[2][j][1], v>> >> \o Without(n[2], k))

RECURSIVE Find(_, _, _)
Find(n, k, d) ==   \* the entry found by walking, or <<>>
  IF IsBranch(n)
  THEN LET i == Dig(k, d) IN IF Has(n, i) THEN Find(Child(n, i), k, d + 1) ELSE <<>>
  ELSE IF n[1] = "S" THEN IF KeyOf(n[2]) = k THEN n[2] ELSE <<>>
  ELSE IF Index(n[2], k) = 0 THEN <<>> ELSE n[2][Index(n[2], k)]

(* Iteration with a stack: a branch is replaced with its children in the order of their digits. *)
RECURSIVE Walk(_)
Walk(stack) ==
  IF stack = <<>> THEN <<>>
  ELSE LET n == stack[1] IN
       IF IsBranch(n)
       THEN LET ds == Sorted(DOMAIN n[2])
            IN Walk([i \in 1..Len(ds) |-> Child(n, ds[i])] \o Tail(stack))
       ELSE (IF n[1] = "S" THEN <<n[2]>> ELSE n[2]) \o Walk(Tail(stack))

Entries(n) == Walk(<<n>>)
Abs(n) == LET es == Entries(n) IN
          FoldLeft(LAMBDA acc, i : (KeyOf(es[i]) :> es[i]) @@ acc, EmptyFun, [i \in 1..Len(es) |-> i])

RECURSIVE PathOK(_, _)
PathOK(n, path) ==
  IF IsBranch(n)
  THEN /\ Len(path) < Levels
       /\ \A i \in DOMAIN n[2] : PathOK(Child(n, i), Append(path, i))
       /\ path # <<>> => /\ DOMAIN n[2] # {}
                         /\ Compress(n) = n
  ELSE IF n[1] = "S" THEN SubSeq(Digits(KeyOf(n[2])), 1, Len(path)) = path
  ELSE /\ Len(path) = Levels
       /\ Len(n[2]) >= 2
       /\ \A i \in 1..Len(n[2]) : Digits(KeyOf(n[2][i])) = path
       /\ \A i, j \in 1..Len(n[2]) : KeyOf(n[2][i]) = KeyOf(n[2][j]) => i = j

Inv == /\ PathOK(root, <<>>)
       /\ size = Len(Entries(root))
       /\ size = Cardinality(DOMAIN Abs(root))
       /\ \A k \in Keys \union Ghosts :
            Find(root, k, 0) = IF k \in DOMAIN Abs(root) THEN Abs(root)[k] ELSE <<>>

----------------------------------------------------------------------------
RECURSIVE Str(_)
Str(n) == IF n[1] = "B"
          THEN LET ds == Sorted(DOMAIN n[2]) IN
               "[" \o FoldLeft(LAMBDA s, i : s \o ToString(i) \o Str(n[2][i]), "", ds) \o "]"
          ELSE ToString(n[2])

SetOf(c) == SetToSeq(ItemSet(K, c))
Do(f, a, n2, s2) ==
  /\ root' = n2
  /\ size' = s2
  /\ last' = [f |-> f, a |-> a]
  /\ ~Emit \/ PrintT(ToJson([s |-> Str(root), f |-> f, a |-> a,
                             r |-> Ret(f, "m", Mut(K, f, Abs(root), a)),
                             d |-> Str(n2), c |-> SetOf(Abs(n2))]))

Init == /\ root = Branch(EmptyFun)
        /\ size = 0
        /\ last = [f |-> "new", a |-> <<>>]
Next ==
  \/ \E k \in Keys, v \in Vals :
       LET s == Ins(root, Entry(k, v), 0) IN Do("insert", Entry(k, v), s.n, size + Bit(s.new))
  \/ \E k \in Keys \union Ghosts :
       LET s == Rem(root, k, 0) IN Do("remove", <<Code(k)>>, s.n, size - Bit(s.rem))
  \/ /\ K = "hmap"
     /\ \E k \in Keys \union Ghosts, v \in Vals :
          Do("get_mut", <<Code(k), VCode(v)>>, Write(root, k, VCode(v), 0), size)
Spec == Init /\ [][Next]_vars
View == root

Refines == [][Abs(root') = Mut(K, last'.f, Abs(root), last'.a).c]_vars

Asks == IF K = "hmap" THEN {"get", "get_key_value", "contains_key", "index"} ELSE {"get", "contains"}
QueriesHere ==
  LET c == Abs(root) IN
  SetToSeq({[f |-> f, a |-> <<Code(k)>>, r |-> Query(K, f, c, <<Code(k)>>)] :
             f \in Asks, k \in Keys \union Ghosts}
           \union {[f |-> f, a |-> <<>>, r |-> Query(K, f, c, <<>>)] : f \in {"size", "is_empty"}})
EmitState == ~Emit \/ PrintT(ToJson([st |-> Str(root), c |-> SetOf(Abs(root)), q |-> QueriesHere]))

ASSUME ~Emit \/ PrintT(ToJson([cfg |-> [degree |-> Degree,
         hash |-> SetToSeq({<<k, Digits(k)>> : k \in Keys \union Ghosts})]]))
=============================================================================
