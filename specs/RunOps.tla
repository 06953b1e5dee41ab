------------------------------- MODULE RunOps -------------------------------
(***************************************************************************)
(* The abstract semantics of RpdsOps on contents too large to write down   *)
(* element by element.  Contents are sequences of runs                     *)
(*                                                                         *)
(*    <<a, da, b, db, n>>  :  <<a, b>>, <<a + da, b + db>>, ... (n items)   *)
(*                                                                         *)
(* a is the element or the key, b the value (0 where there is none).       *)
(* Maps and sets, the unordered ones too, are runs in ascending order of   *)
(* their keys, with da = Tag (consecutive classes).                        *)
(*                                                                         *)
(* A step [f, s, n, x, dx, y, dy] stands for n calls of f: the i-th has    *)
(* the arguments x + i*dx and y + i*dy.  RunCheck checks that runs do what *)
(* RpdsOps does to the contents they stand for.                            *)
(***************************************************************************)
EXTENDS RpdsOps

Run(a, da, b, db, n) == IF n <= 0 THEN <<>> ELSE << <<a, da, b, db, n>> >>
RunItem(r, i) == <<r[1] + i * r[2], r[3] + i * r[4]>>
RunFrom(r, i) == Run(r[1] + i * r[2], r[2], r[3] + i * r[4], r[4], r[5] - i)
RunUpTo(r, n) == Run(r[1], r[2], r[3], r[4], n)

RLen(c) == FoldLeft(LAMBDA n, r : n + r[5], 0, c)
RConcat(f(_), c) == FoldLeft(LAMBDA acc, r : acc \o f(r), <<>>, c)

RECURSIVE RDrop(_, _)
RDrop(c, n) ==
  IF c = <<>> \/ n <= 0 THEN c
  ELSE IF n >= c[1][5] THEN RDrop(Tail(c), n - c[1][5])
  ELSE RunFrom(c[1], n) \o Tail(c)
RECURSIVE RTake(_, _)
RTake(c, n) ==
  IF c = <<>> \/ n <= 0 THEN <<>>
  ELSE IF n >= c[1][5] THEN <<c[1]>> \o RTake(Tail(c), n - c[1][5])
  ELSE RunUpTo(c[1], n)
RReverse(c) ==
  Reverse([i \in 1..Len(c) |->
             LET r == c[i] IN
             <<r[1] + (r[5] - 1) * r[2], -r[2], r[3] + (r[5] - 1) * r[4], -r[4], r[5]>>])
RDropEnd(c, n) == RTake(c, RLen(c) - n)
RAt(c, i) == RunItem(RDrop(c, i)[1], 0)      \* 0-based

(* Do two sequences of runs stand for the same items? *)
RECURSIVE RSame(_, _)
RSame(c, d) ==
  IF c = <<>> \/ d = <<>> THEN c = d
  ELSE LET m == Min2(c[1][5], d[1][5]) IN
       /\ c[1][1] = d[1][1] /\ c[1][3] = d[1][3]
       /\ IF m = 1 THEN TRUE ELSE c[1][2] = d[1][2] /\ c[1][4] = d[1][4]
       /\ RSame(RDrop(c, m), RDrop(d, m))

(* The items of the classes from lo to hi: how many are below, and which they are. *)
RunLo(r) == Cls(r[1])
RunHi(r) == Cls(r[1]) + r[5] - 1
Max2(x, y) == IF x > y THEN x ELSE y
RunCut(r, lo, hi) ==
  LET from == Max2(lo, RunLo(r)) - RunLo(r)
      to == Min2(hi, RunHi(r)) - RunLo(r)
  IN IF from > to THEN <<>> ELSE RunUpTo(RunFrom(r, from)[1], to - from + 1)
RCut(c, lo, hi) == LET f(r) == RunCut(r, lo, hi) IN RConcat(f, c)
RCarve(c, lo, hi) ==
  LET f(r) == RunCut(r, RunLo(r), lo - 1) \o RunCut(r, hi + 1, RunHi(r)) IN RConcat(f, c)
RBelow(c, x) == LET f(r) == RunCut(r, RunLo(r), x - 1) IN RConcat(f, c)
RAbove(c, x) == LET f(r) == RunCut(r, x + 1, RunHi(r)) IN RConcat(f, c)
RFind(c, x) == RCut(c, x, x)

(* One step: the contents, how many of the calls did something, and the old values they saw. *)
RR(c, ok, old) == [c |-> c, ok |-> ok, old |-> old]
Olds(c) == [i \in 1..Len(c) |-> <<c[i][3], c[i][4], 0, 0, c[i][5]>>]
RunStep(k, c, o) ==
  LET n == o.n
      len == RLen(c)
      run == Run(o.x, o.dx, 0, 0, n)
  IN
  CASE o.f \in {"push_front", "push"} -> RR(RReverse(run) \o c, 0, <<>>)
    [] o.f \in {"push_back", "enqueue", "extend"} -> RR(c \o run, 0, <<>>)
    [] o.f \in {"drop_first", "pop", "dequeue"} -> RR(RDrop(c, n), Min2(n, len), <<>>)
    [] o.f = "drop_last" -> RR(RDropEnd(c, Min2(n, len)), Min2(n, len), <<>>)
    [] o.f = "reverse" -> RR(IF n % 2 = 0 THEN c ELSE RReverse(c), 0, <<>>)
    \* n times: one in, one out
    [] o.f = "churn" -> RR(RDrop(c \o run, n), n, <<>>)
    [] k = "vector" /\ o.f \in {"set", "get_mut", "index_mut"} ->
         LET m == Max2(0, Min2(n, len - o.x)) IN
         IF m = 0 THEN RR(c, 0, <<>>)
         ELSE RR(RTake(c, o.x) \o Run(o.y, o.dy, 0, 0, m) \o RDrop(c, o.x + m), m,
                 IF o.f = "set" THEN <<>> ELSE RTake(RDrop(c, o.x), m))
    [] o.f = "insert" ->
         LET lo == Cls(o.x) IN
         RR(RBelow(c, lo)
            \o Run(o.x, Tag, IF k \in MapKinds THEN o.y ELSE 0, IF k \in MapKinds THEN o.dy ELSE 0, n)
            \o RAbove(c, lo + n - 1), 0, <<>>)
    [] o.f = "remove" ->
         LET lo == Cls(o.x) IN
         RR(RCarve(c, lo, lo + n - 1), RLen(RCut(c, lo, lo + n - 1)), <<>>)
    [] o.f = "get_mut" ->
         LET lo == Cls(o.x)
             hi == lo + n - 1
             f(r) == <<r[1], r[2], o.y + (RunLo(r) - lo) * o.dy, o.dy, r[5]>>
             was == RCut(c, lo, hi)
         IN RR(RBelow(c, lo) \o [i \in 1..Len(was) |-> f(was[i])] \o RAbove(c, hi), RLen(was), Olds(was))

(* What is recorded of a step: how many calls returned true or something, where that is returned. *)
StepSays(o, m) ==
  /\ IF o.f \in Infallible THEN TRUE
     ELSE IF o.f = "remove" /\ o.s = "p" THEN TRUE
     ELSE o.ok = m.ok
  /\ IF o.f \in {"get_mut", "index_mut"} THEN RSame(m.old, o.old) ELSE TRUE

(* Queries: x is an index or a key. *)
RunQuery(k, f, c, x) ==
  LET len == RLen(c)
      pair(e) == IF k \in MapKinds THEN e ELSE <<e[1]>>
      found == RFind(c, Cls(x))
  IN
  CASE f \in {"len", "size"} -> <<len>>
    [] f = "is_empty" -> <<Bit(len = 0)>>
    [] f \in {"first", "peek"} -> IF len = 0 THEN <<0>> ELSE <<1>> \o pair(RAt(c, 0))
    [] f = "last" -> IF len = 0 THEN <<0>> ELSE <<1>> \o pair(RAt(c, len - 1))
    [] f = "get" /\ k = "vector" -> IF x < len THEN <<1, RAt(c, x)[1]>> ELSE <<0>>
    [] f = "index" /\ k = "vector" -> IF x < len THEN <<RAt(c, x)[1]>> ELSE Panicked
    [] f = "get" /\ k \in MapKinds -> IF found = <<>> THEN <<0>> ELSE <<1, found[1][3]>>
    [] f = "index" -> IF found = <<>> THEN Panicked ELSE <<found[1][3]>>
    [] f \in {"get_key_value", "get"} -> IF found = <<>> THEN <<0>> ELSE <<1>> \o pair(RAt(found, 0))
    [] f \in {"contains_key", "contains"} -> <<Bit(found # <<>>)>>

(* Steps <<code, arg, runs, len>> of an iterator that has `left` to yield; see big.rs. *)
RunIter(left, code, n) ==
  CASE code = 9 -> [left |-> left, out |-> <<>>]
    [] code = 0 -> [left |-> RDrop(left, 1), out |-> RTake(left, 1)]
    [] code = 1 -> [left |-> RDropEnd(left, 1), out |-> RTake(RReverse(left), 1)]
    [] code = 2 -> [left |-> RDrop(left, n + 1), out |-> RTake(RDrop(left, n), 1)]
    [] code = 3 -> [left |-> RDropEnd(left, n + 1), out |-> RTake(RDrop(RReverse(left), n), 1)]
    [] code = 4 -> [left |-> RDrop(left, n), out |-> RTake(left, n)]
    [] code = 6 -> [left |-> RDropEnd(left, n), out |-> RTake(RReverse(left), n)]
    [] code = 10 -> [left |-> <<>>, out |-> Run(RLen(left), 0, 0, 0, 1)]
    [] code = 11 -> [left |-> <<>>, out |-> RTake(RReverse(left), 1)]
    [] code \in {12, 13} -> [left |-> <<>>, out |-> left]
    [] code \in {16, 17} -> [left |-> <<>>, out |-> RReverse(left)]

RECURSIVE RunIterOK(_, _, _)
RunIterOK(left, steps, i) ==
  IF i > Len(steps) THEN TRUE
  ELSE LET st == steps[i]
           m == RunIter(left, st[1], st[2])
       IN /\ RSame(m.out, st[3])
          /\ st[4] \in {-1, RLen(m.left)}
          /\ RunIterOK(m.left, steps, i + 1)

(* The same for an order that is not known: only how much is left, and that what comes (of the items
   or keys c; values are not looked up) is there. *)
RECURSIVE RunIterAnyOK(_, _, _, _, _)
RunIterAnyOK(k, c, left, steps, i) ==
  IF i > Len(steps) THEN TRUE
  ELSE LET st == steps[i]
           n == CASE st[1] = 0 -> 1 [] st[1] = 2 -> st[2] + 1 [] st[1] = 9 -> 0 [] OTHER -> left
           m == Max2(0, left - n)
       IN /\ IF st[1] = 10 THEN st[3] = Run(left, 0, 0, 0, 1)
             ELSE IF st[1] = 9 THEN TRUE
             ELSE IF left < n THEN st[3] = <<>>
             ELSE IF Len(st[3]) # 1 THEN FALSE
             ELSE IF c = <<>> THEN TRUE
             ELSE RSame(RFind(c, Cls(st[3][1][1])), st[3])
          /\ st[4] \in {-1, m}
          /\ RunIterAnyOK(k, c, m, steps, i + 1)

RunRange(c, lo, hi) ==
  LET from == IF lo[1] = 0 THEN -1 ELSE Cls(lo[2]) + (IF lo[1] = 2 THEN 1 ELSE 0)
      to == IF hi[1] = 0 THEN 2000000 ELSE Cls(hi[2]) - (IF hi[1] = 2 THEN 1 ELSE 0)
  IN RCut(c, from, to)

(* Comparing: where all steps are multiples of Tag, two runs that do not differ in their first two
   items do not differ at all. *)
RECURSIVE RunCmp(_, _)
RunCmp(c, d) ==
  IF c = <<>> \/ d = <<>> THEN IntCmp(RLen(c), RLen(d))
  ELSE LET m == Min2(c[1][5], d[1][5])
           at(i) == LET x == RunItem(c[1], i)
                        y == RunItem(d[1], i)
                        o == IntCmp(Cls(x[1]), Cls(y[1]))
                    IN IF o # 0 THEN o ELSE IntCmp(Cls(x[2]), Cls(y[2]))
       IN IF at(0) # 0 THEN at(0)
          ELSE IF m > 1 /\ at(1) # 0 THEN at(1)
          ELSE RunCmp(RDrop(c, m), RDrop(d, m))
RunEq(c, d) == RunCmp(c, d) = 0

RunCommon(c, d) ==
  FoldLeft(LAMBDA n, r : n + RLen(RCut(c, RunLo(r), RunHi(r))), 0, d)
RunRelations(c, d) ==
  << Bit(RunCommon(c, d) = 0), Bit(RunCommon(c, d) = RLen(c)), Bit(RunCommon(c, d) = RLen(d)) >>

(* What runs stand for. *)
ExpandItems(c) ==
  LET f(r) == [i \in 1..r[5] |-> RunItem(r, i - 1)] IN RConcat(f, c)
Expand(k, c) ==
  LET s == ExpandItems(c) IN
  IF k \in SeqKinds THEN [i \in 1..Len(s) |-> s[i][1]]
  ELSE [x \in {Cls(s[i][1]) : i \in 1..Len(s)} |->
          LET e == s[CHOOSE i \in 1..Len(s) : Cls(s[i][1]) = x] IN
          IF k \in MapKinds THEN e ELSE <<e[1]>>]
=============================================================================
