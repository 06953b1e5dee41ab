----------------------------- MODULE VectorImpl -----------------------------
(***************************************************************************)
(* The bit-partitioned trie of Vector: leaves of up to 2^Bits elements,    *)
(* branches of up to 2^Bits children, only the right edge not full; the    *)
(* root grows when it is full and is replaced by its only child when it    *)
(* has one.  Checked:                                                      *)
(*   - every operation refines RpdsOps (contents and result),              *)
(*   - the height computed from the length is the height of the trie, and  *)
(*     the trie has the one shape there is for its length,                 *)
(*   - the walk by the digits of an index finds the element of that index, *)
(*   - the two-ended iterator, with its two stacks, yields at either end   *)
(*     what is left of the contents.                                       *)
(* Every transition is printed, to be taken in the real code.              *)
(***************************************************************************)
EXTENDS RpdsOps, Json

CONSTANTS Bits, MinLen, MaxLen, \* lengths explored
          InitLen,              \* length started from
          Positions(_),         \* positions written to, given the length
          MaxOdd,               \* at most this many elements may be rewritten
          Emit

VARIABLES root, len, last
vars == <<root, len, last>>

(* TLC has 32-bit integers; no vector explored comes near 2^30 elements. *)
Pow(k) == IF k > 30 THEN 2 ^ 30 ELSE 2 ^ k
Degree == Pow(Bits)
AllPositions(n) == 0..n
FewPositions(n) == {0, 1, n - 2, n - 1, n, 31, 32, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1000000} \cap (0..(n - 1) \union {n, 1000000})

Leaf(es) == <<"L", es>>
Branch(cs) == <<"B", cs>>
Used(n) == Len(n[2])

(* 2^(Bits * i) *)
Span(h) == Pow(Bits * h)
Bucket(i, h) == (i \div Span(h)) % Degree
(* What `height` computes from the length: the bits of (length - 1) in groups. *)
RECURSIVE BitLen(_)
BitLen(u) == IF u = 0 THEN 0 ELSE 1 + BitLen(u \div 2)
HeightOf(n) == IF n > 1
               THEN LET c == BitLen(n - 1) IN c \div Bits + Bit(c % Bits > 0) - 1
               ELSE 0

RECURSIVE Assoc(_, _, _, _)
Assoc(n, e, i, h) ==
  LET b == Bucket(i, h) IN
  IF n[1] = "L"
  THEN Leaf(IF Used(n) = b THEN Append(n[2], e) ELSE [n[2] EXCEPT ![b + 1] = e])
  ELSE IF b < Used(n)
       THEN Branch([n[2] EXCEPT ![b + 1] = Assoc(@, e, i, h - 1)])
       ELSE Branch(Append(n[2], Assoc(IF h > 1 THEN Branch(<<>>) ELSE Leaf(<<>>), e, i, h - 1)))

RootFull(n) == n = Pow(Bits * (HeightOf(n) + 1))
Push(r, n, e) ==
  IF RootFull(n)
  THEN Assoc(Branch(<<r>>), e, n, HeightOf(n + 1))
  ELSE Assoc(r, e, n, HeightOf(n))

RECURSIVE Prune(_)
Prune(n) ==   \* without its last element; an empty node is dropped by its parent
  IF n[1] = "L" THEN Leaf(Front(n[2]))
  ELSE LET c == Prune(Last(n[2])) IN
       Branch(IF Used(c) = 0 THEN Front(n[2]) ELSE Append(Front(n[2]), c))
CompressRoot(n) == IF n[1] = "B" /\ Used(n) = 1 THEN n[2][1] ELSE n
DropLast(r) == CompressRoot(Prune(r))

RECURSIVE Fetch(_, _, _)
Fetch(n, i, h) == IF n[1] = "L" THEN n[2][Bucket(i, h) + 1] ELSE Fetch(n[2][Bucket(i, h) + 1], i, h - 1)

RECURSIVE Flat(_)
Flat(n) == IF n[1] = "L" THEN n[2]
           ELSE FoldLeft(LAMBDA acc, c : acc \o Flat(c), <<>>, n[2])
Abs == Flat(root)

RECURSIVE Shape(_, _)
(* The trie of height h that has m elements is full from the left. *)
Shape(h, m) ==
  IF h = 0 THEN Leaf([i \in 1..m |-> 0])
  ELSE LET full == Span(h)
           k == (m + full - 1) \div full
       IN Branch([i \in 1..k |-> Shape(h - 1, IF i < k \/ m % full = 0 THEN full ELSE m % full)])
RECURSIVE Same(_, _)
Same(a, b) == /\ a[1] = b[1]
              /\ Used(a) = Used(b)
              /\ a[1] = "B" => \A i \in 1..Used(a) : Same(a[2][i], b[2][i])

Inv == /\ Same(root, Shape(HeightOf(len), len))
       /\ Len(Abs) = len
       /\ \A i \in Positions(len) : i < len => Fetch(root, i, HeightOf(len)) = Abs[i + 1]

----------------------------------------------------------------------------
(* The iterator: a stack of (node, index) per end, made when first used; the top of the stack is a
   leaf and the element the end is at. *)
RECURSIVE Dig(_, _)
Dig(st, back) ==
  LET top == Last(st) IN
  IF top[1][1] = "L" THEN st
  ELSE LET c == top[1][2][top[2]] IN Dig(Append(st, <<c, IF back THEN Used(c) ELSE 1>>), back)
Start(back) == Dig(<< <<root, IF back THEN Used(root) ELSE 1>> >>, back)
RECURSIVE Advance(_, _)
Advance(st, back) ==
  IF st = <<>> THEN <<>>
  ELSE LET top == Last(st)
           i == IF back THEN top[2] - 1 ELSE top[2] + 1
       IN IF i < 1 \/ i > Used(top[1]) THEN Advance(Front(st), back)
          ELSE Dig(Append(Front(st), <<top[1], i>>), back)
Current(st) == Last(st)[1][2][Last(st)[2]]

RECURSIVE Ends(_, _, _)
(* From one end alone, n steps. *)
Ends(st, back, n) == IF n = 0 THEN <<>> ELSE <<Current(st)>> \o Ends(Advance(st, back), back, n - 1)
IterInv == len > 0 => /\ Ends(Start(FALSE), FALSE, len) = Abs
                      /\ Ends(Start(TRUE), TRUE, len) = Reverse(Abs)

----------------------------------------------------------------------------
Elem(i, odd) == (i % 1000) * Tag + odd
Odds(c) == {i \in 1..Len(c) : c[i] % Tag # 0}
Name(c) == ToString(<<Len(c), Odds(c)>>)

Do(f, a, r2, n2) ==
  /\ root' = r2
  /\ len' = n2
  /\ last' = [f |-> f, a |-> a]
  /\ ~Emit \/ PrintT(ToJson([s |-> Name(Abs), f |-> f, a |-> a,
                             r |-> Ret(f, "m", Mut("vector", f, Abs, a)),
                             d |-> Name(Flat(r2)), c |-> Flat(r2)]))

RECURSIVE Build(_, _, _)
Build(r, n, top) == IF n = top THEN r ELSE Build(Push(r, n, Elem(n, 0)), n + 1, top)
Init == /\ root = Build(Leaf(<<>>), 0, InitLen)
        /\ len = InitLen
        /\ last = [f |-> "new", a |-> <<>>]
Write(f, i, odd) ==
  IF i < len THEN Do(f, <<i, Elem(i, odd)>>, Assoc(root, Elem(i, odd), i, HeightOf(len)), len)
  ELSE Do(f, <<i, Elem(i, odd)>>, root, len)
Next ==
  \/ /\ len < MaxLen
     /\ Do("push_back", <<Elem(len, 0)>>, Push(root, len, Elem(len, 0)), len + 1)
  \/ /\ len > MinLen \/ len = 0
     /\ IF len = 0 THEN Do("drop_last", <<>>, root, 0)
        ELSE Do("drop_last", <<>>, DropLast(root), len - 1)
  \/ \E i \in Positions(len), odd \in {0, 1}, f \in {"set", "get_mut", "index_mut"} :
       /\ odd = 1 => Cardinality(Odds(Abs) \union {i + 1}) <= MaxOdd
       /\ Write(f, i, odd)
Spec == Init /\ [][Next]_vars
View == <<root, len>>

Refines == [][Flat(root') = Mut("vector", last'.f, Flat(root), last'.a).c]_vars

QueriesHere ==
  SetToSeq({[f |-> f, a |-> <<i>>, r |-> Query("vector", f, Abs, <<i>>)] :
             f \in {"get", "index"}, i \in Positions(len)}
           \union {[f |-> f, a |-> <<>>, r |-> Query("vector", f, Abs, <<>>)] :
             f \in {"first", "last", "len", "is_empty"}})
EmitState == ~Emit \/ PrintT(ToJson([st |-> Name(Abs), c |-> Abs, q |-> QueriesHere]))
ASSUME ~Emit \/ PrintT(ToJson([cfg |-> [bits |-> Bits, init |-> [i \in 1..InitLen |-> Elem(i - 1, 0)]]]))
=============================================================================
