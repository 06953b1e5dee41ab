---------------------------- MODULE RedBlackImpl ----------------------------
(***************************************************************************)
(* The red-black tree of RedBlackTreeMap and RedBlackTreeSet: Okasaki's    *)
(* insertion and Kahrs's deletion, as in the code (in which a removal      *)
(* rebalances on its way up even when the key is absent).  Checked:        *)
(*   - every operation refines RpdsOps (contents and result),              *)
(*   - search order, no red node with a red child, equal black heights,    *)
(*     a black root, and so a height of at most 2 log2(n + 1).             *)
(* Every transition is printed, to be taken in the real code.              *)
(***************************************************************************)
EXTENDS RpdsOps, Json

CONSTANTS MaxKey,   \* keys are 1..MaxKey; 0 and MaxKey + 1 are asked for too
          Vals,     \* values
          K,        \* "tmap" or "tset"
          Emit     \* print transitions?

VARIABLES t, last
vars == <<t, last>>

Nil == <<>>
N(c, e, l, r) == <<c, e, l, r>>
Col(n) == IF n = Nil THEN "none" ELSE n[1]
En(n) == n[2]
L(n) == n[3]
Rt(n) == n[4]
Paint(n, c) == <<c, n[2], n[3], n[4]>>
Red(n) == n # Nil /\ n[1] = "R"
Black(n) == n # Nil /\ n[1] = "B"
LL(n) == IF n = Nil THEN Nil ELSE L(n)
RR(n) == IF n = Nil THEN Nil ELSE Rt(n)

Balance(n) ==
  LET l == L(n)
      r == Rt(n)
      e == En(n)
  IN CASE ~Black(n) -> n
       [] Black(n) /\ Red(l) /\ Red(LL(l)) ->
            N("R", En(l), Paint(L(l), "B"), N("B", e, Rt(l), r))
       [] Black(n) /\ Red(l) /\ ~Red(LL(l)) /\ Red(RR(l)) ->
            LET m == Rt(l) IN N("R", En(m), N("B", En(l), L(l), L(m)), N("B", e, Rt(m), r))
       [] Black(n) /\ ~(Red(l) /\ (Red(LL(l)) \/ Red(RR(l)))) /\ Red(r) /\ Red(LL(r)) ->
            LET m == L(r) IN N("R", En(m), N("B", e, l, L(m)), N("B", En(r), Rt(m), Rt(r)))
       [] Black(n) /\ ~(Red(l) /\ (Red(LL(l)) \/ Red(RR(l)))) /\ Red(r) /\ ~Red(LL(r))
                   /\ Red(RR(r)) ->
            N("R", En(r), N("B", e, l, L(r)), Paint(Rt(r), "B"))
       [] OTHER -> n

RECURSIVE Ins(_, _)
Ins(n, e) ==
  IF n = Nil THEN [n |-> N("R", e, Nil, Nil), new |-> TRUE]
  ELSE IF Cls(e[1]) < Cls(En(n)[1])
       THEN LET s == Ins(L(n), e)
                m == N(n[1], n[2], s.n, n[4])
            IN [n |-> IF s.new THEN Balance(m) ELSE m, new |-> s.new]
       ELSE IF Cls(e[1]) > Cls(En(n)[1])
       THEN LET s == Ins(Rt(n), e)
                m == N(n[1], n[2], n[3], s.n)
            IN [n |-> IF s.new THEN Balance(m) ELSE m, new |-> s.new]
       ELSE [n |-> N(n[1], e, n[3], n[4]), new |-> FALSE]
Insert(n, e) == Paint(Ins(n, e).n, "B")

RemBalance(n) ==
  IF Red(L(n)) /\ Red(Rt(n)) THEN N("R", En(n), Paint(L(n), "B"), Paint(Rt(n), "B"))
  ELSE Balance(n)
RemLeft(n) ==
  LET l == L(n)
      r == Rt(n)
  IN IF Red(l) THEN N("R", En(n), Paint(l, "B"), r)
     ELSE IF Black(r) THEN RemBalance(N("B", En(n), l, Paint(r, "R")))
     ELSE LET m == L(r) IN   \* r is red and its left child is black
          N("R", En(m), N("B", En(n), l, L(m)),
            RemBalance(N("B", En(r), Rt(m), Paint(Rt(r), "R"))))
RemRight(n) ==
  LET l == L(n)
      r == Rt(n)
  IN IF Red(r) THEN N("R", En(n), l, Paint(r, "B"))
     ELSE IF Black(l) THEN RemBalance(N("B", En(n), Paint(l, "R"), r))
     ELSE LET m == Rt(l) IN
          N("R", En(m), RemBalance(N("B", En(l), Paint(L(l), "R"), L(m))),
            N("B", En(n), Rt(m), r))

RECURSIVE Fuse(_, _)
Fuse(l, r) ==
  IF l = Nil THEN r
  ELSE IF r = Nil THEN l
  ELSE IF Black(l) /\ Red(r) THEN N(r[1], r[2], Fuse(l, L(r)), Rt(r))
  ELSE IF Red(l) /\ Black(r) THEN N(l[1], l[2], L(l), Fuse(Rt(l), r))
  ELSE LET f == Fuse(Rt(l), L(r))
           c == l[1]
       IN IF Red(f) THEN N("R", En(f), N(c, En(l), L(l), L(f)), N(c, En(r), Rt(f), Rt(r)))
          ELSE IF c = "R" THEN N("R", En(l), L(l), N("R", En(r), f, Rt(r)))
          ELSE RemLeft(N("R", En(l), L(l), N("B", En(r), f, Rt(r))))

RECURSIVE Rem(_, _)
Rem(n, x) ==
  IF n = Nil THEN Nil
  ELSE IF x < Cls(En(n)[1])
       THEN LET m == N("R", En(n), Rem(L(n), x), Rt(n))
            IN IF Black(L(n)) THEN RemLeft(m) ELSE m
       ELSE IF x > Cls(En(n)[1])
       THEN LET m == N("R", En(n), L(n), Rem(Rt(n), x))
            IN IF Black(Rt(n)) THEN RemRight(m) ELSE m
       ELSE Fuse(L(n), Rt(n))
Delete(n, x) == LET m == Rem(n, x) IN IF m = Nil THEN Nil ELSE Paint(m, "B")

RECURSIVE Write(_, _, _)
Write(n, x, v) ==
  IF n = Nil THEN Nil
  ELSE IF x < Cls(En(n)[1]) THEN N(n[1], n[2], Write(L(n), x, v), n[4])
  ELSE IF x > Cls(En(n)[1]) THEN N(n[1], n[2], n[3], Write(Rt(n), x, v))
  ELSE N(n[1], <<En(n)[1], v>>, n[3], n[4])

RECURSIVE Abs(_)
Abs(n) == IF n = Nil THEN EmptyFun ELSE Abs(L(n)) @@ (Cls(En(n)[1]) :> En(n)) @@ Abs(Rt(n))

RECURSIVE InOrder(_)
InOrder(n) == IF n = Nil THEN <<>> ELSE InOrder(L(n)) \o <<En(n)>> \o InOrder(Rt(n))
RECURSIVE Height(_)
Height(n) == IF n = Nil THEN 0
             ELSE 1 + (IF Height(L(n)) > Height(Rt(n)) THEN Height(L(n)) ELSE Height(Rt(n)))
RECURSIVE BlackHeight(_)   \* -1000 if it is not defined
BlackHeight(n) ==
  IF n = Nil THEN 0
  ELSE LET a == BlackHeight(L(n))
           b == BlackHeight(Rt(n))
       IN IF a # b THEN -1000 ELSE a + (IF Black(n) THEN 1 ELSE 0)
RECURSIVE NoRedRed(_)
NoRedRed(n) == IF n = Nil THEN TRUE
               ELSE /\ Red(n) => ~Red(L(n)) /\ ~Red(Rt(n))
                    /\ NoRedRed(L(n)) /\ NoRedRed(Rt(n))
RECURSIVE Pow2(_)
Pow2(i) == IF i = 0 THEN 1 ELSE 2 * Pow2(i - 1)
RECURSIVE LgUp(_, _)   \* the least i from which 2^i >= n
LgUp(n, i) == IF Pow2(i) >= n THEN i ELSE LgUp(n, i + 1)

Count(n) == Len(InOrder(n))
SearchOrder == \A i \in 1..(Count(t) - 1) : Cls(InOrder(t)[i][1]) < Cls(InOrder(t)[i + 1][1])
RedBlack == NoRedRed(t) /\ BlackHeight(t) >= 0 /\ ~Red(t)
Balanced == Height(t) <= 2 * LgUp(Count(t) + 1, 0)
Inv == SearchOrder /\ RedBlack /\ Balanced

----------------------------------------------------------------------------
Code(k) == k * Tag
VCode(v) == 10000000 + v
Entry(k, v) == IF K = "tmap" THEN <<Code(k), VCode(v)>> ELSE <<k * Tag + v>>

RECURSIVE Str(_)
Str(n) == IF n = Nil THEN "." ELSE n[1] \o ToString(En(n)) \o Str(L(n)) \o Str(Rt(n))

Do(f, a, t2) ==
  /\ t' = t2
  /\ last' = [f |-> f, a |-> a]
  /\ ~Emit \/ PrintT(ToJson([s |-> Str(t), f |-> f, a |-> a,
                              r |-> Ret(f, "m", Mut(K, f, Abs(t), a)),
                              d |-> Str(t2), c |-> Items(K, Abs(t2))]))

Init == t = Nil /\ last = [f |-> "new", a |-> <<>>]
Next == \/ \E k \in 1..MaxKey, v \in Vals : Do("insert", Entry(k, v), Insert(t, Entry(k, v)))
        \/ \E k \in 0..(MaxKey + 1) : Do("remove", <<Code(k)>>, Delete(t, k))
        \/ /\ K = "tmap" /\ Cardinality(Vals) > 1
           /\ \E k \in 1..MaxKey, v \in Vals :
                Do("get_mut", <<Code(k), VCode(v)>>, Write(t, k, VCode(v)))
Spec == Init /\ [][Next]_vars
View == t

Refines == [][Abs(t') = Mut(K, last'.f, Abs(t), last'.a).c]_vars

(* What every query answers in each state, and how many comparisons a lookup may take. *)
Asks == IF K = "tmap"
        THEN {"get", "get_key_value", "contains_key", "index"}
        ELSE {"get", "contains"}
QueriesHere ==
  SetToSeq({[f |-> f, a |-> <<Code(k)>>, r |-> Query(K, f, Abs(t), <<Code(k)>>)] :
             f \in Asks, k \in 0..(MaxKey + 1)}
           \union {[f |-> f, a |-> <<>>, r |-> Query(K, f, Abs(t), <<>>)] :
             f \in {"first", "last", "size", "is_empty"}})
EmitState == ~Emit \/ PrintT(ToJson([st |-> Str(t), c |-> Items(K, Abs(t)), q |-> QueriesHere,
                                      cmps |-> 2 * LgUp(Count(t) + 1, 0) + 1]))
=============================================================================
