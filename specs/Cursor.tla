------------------------------ MODULE Cursor ------------------------------
(***************************************************************************)
(* An iterator over a structure of n elements, or over a range of an       *)
(* ordered one: what is left lies between a front and a back, which move   *)
(* towards each other.  Elements are known by their positions 1..n; the    *)
(* ordered structures have the keys 2, 4, .. 2n, so that bounds lie on, in *)
(* between, before and after keys.                                         *)
(* Checked: the moves yield what the abstract specification of iteration   *)
(* says (StepYield, StepLeft), whatever was already yielded is not yielded *)
(* again, and a range starts with exactly the keys within its bounds.      *)
(* Every transition is printed: the harness takes every path through them  *)
(* with the real iterators.                                                *)
(***************************************************************************)
EXTENDS RpdsOps, Json
CONSTANTS N, Most, Ranges, Emit
VARIABLES n, lo, hi, i, j, seen, last
vars == <<n, lo, hi, i, j, seen, last>>
Params == <<n, lo, hi>>

Keys(m) == [x \in {2 * p : p \in 1..m} |-> <<x * Tag>>]
Bounds(m) == IF Ranges THEN {<<0, 0>>} \cup {<<t, x * Tag>> : t \in {1, 2}, x \in 1..(2 * m + 1)}
             ELSE {<<0, 0>>}
Within(m, l, h) == LET s == RangeItems("tset", Keys(m), l, h)
                   IN [k \in 1..Len(s) |-> Cls(s[k]) \div 2]
Left(f, b) == [k \in 1..(b - f + 1) |-> f + k - 1]

(* The place of the first key past the lower bound, and of the last before the upper one. *)
RECURSIVE First(_, _), Final(_, _)
First(l, p) == IF l[1] = 0 THEN 1
               ELSE IF 2 * p > Cls(l[2]) \/ (l[1] = 1 /\ 2 * p = Cls(l[2])) THEN p ELSE First(l, p + 1)
Final(h, p) == IF h[1] = 0 \/ p = 0 THEN p
               ELSE IF 2 * p < Cls(h[2]) \/ (h[1] = 1 /\ 2 * p = Cls(h[2])) THEN p ELSE Final(h, p - 1)

Init == /\ n \in 0..N
        /\ lo \in Bounds(n)
        /\ hi \in Bounds(n)
        /\ i = First(lo, 1)
        /\ j = Final(hi, n)
        /\ seen = {}
        /\ last = [c |-> 9, a |-> 0, r |-> <<>>]

Do(c, a, i2, j2, r) ==
  /\ i' = i2
  /\ j' = j2
  /\ seen' = seen \cup {r[k] : k \in 1..Len(r)}
  /\ last' = [c |-> c, a |-> a, r |-> r]
  /\ UNCHANGED Params
  /\ ~Emit \/ PrintT(ToJson([n |-> n, lo |-> lo, hi |-> hi, i |-> i, j |-> j, c |-> c, a |-> a,
                             r |-> r, di |-> i2, dj |-> j2]))

FromFront(c, a) == IF i + a <= j THEN Do(c, a, i + a + 1, j, <<i + a>>) ELSE Do(c, a, i, i - 1, <<>>)
FromBack(c, a) == IF j - a >= i THEN Do(c, a, i, j - a - 1, <<j - a>>) ELSE Do(c, a, i, i - 1, <<>>)

Next == /\ ~RangePanics(lo, hi)
        /\ \/ FromFront(0, 0)
           \/ FromBack(1, 0)
           \/ \E a \in 0..Most : FromFront(2, a) \/ FromBack(3, a)
Spec == Init /\ [][Next]_vars
(* What was yielded matters to the invariant only: which elements are left says enough. *)
View == <<Params, i, j>>

Here == Left(i, j)
Start == RangePanics(lo, hi) \/ last.c # 9 \/ Here = Within(n, lo, hi)
Once == \A x \in seen : x \notin {Here[k] : k \in 1..Len(Here)}
Refines == [][/\ last'.r = StepYield(Here, last'.c, last'.a)
              /\ Left(i', j') = StepLeft(Here, last'.c, last'.a)]_vars
(* Once nothing is left, nothing is yielded any more. *)
Fused == [][i > j => last'.r = <<>> /\ i' > j']_vars
EmitState ==
  IF Emit /\ last.c = 9
  THEN PrintT(ToJson([st |-> <<i, j>>, n |-> n, lo |-> lo, hi |-> hi, p |-> Bit(RangePanics(lo, hi))]))
  ELSE TRUE
=============================================================================
