----------------------------- MODULE CaseTrace -----------------------------
(***************************************************************************)
(* Trace specification for independent cases: every event gives the        *)
(* history of calls that made its operands, and what was then asked.  The  *)
(* specification works out the contents from the history with RpdsOps and  *)
(* decides whether the answer is right.                                    *)
(***************************************************************************)
EXTENDS RunOps, Json, IOUtils

Costs == INSTANCE Costs

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
E == Trace[l]

(* The contents after a history, from contents c. *)
Hist(k, c, h) == FoldLeft(LAMBDA acc, o : Mut(k, o[1], acc, o[2]).c, c, h)

NA == -9
IsNaN(x) == Cls(x) = NanCls
Flat(k, c) == IF k \in SeqKinds THEN {c[i] : i \in 1..Len(c)}
              ELSE UNION {{c[x][i] : i \in 1..Len(c[x])} : x \in DOMAIN c}
HasNaN(k, c) == \E x \in Flat(k, c) : IsNaN(x)

(* Do two contents agree class by class (what is hashed)? *)
SameClasses(k, c, d) ==
  IF k \in SeqKinds THEN Len(c) = Len(d) /\ \A i \in 1..Len(c) : Cls(c[i]) = Cls(d[i])
  ELSE DOMAIN c = DOMAIN d /\ \A x \in DOMAIN c : \A i \in 1..Len(c[x]) : Cls(c[x][i]) = Cls(d[x][i])

(* r = eq ne partial_cmp < <= > >= cmp hash ptr_eq                         *)
(* A map that shares all its content with the other one counts as equal    *)
(* even if it holds values that are not equal to themselves.               *)
EqOK(k, c, d, r, samebase) ==
  /\ r[2] = 1 - r[1]
  /\ IF k \in MapKinds /\ samebase /\ HasNaN(k, c) /\ c = d
     THEN IF r[10] = 1 THEN r[1] = 1 ELSE r[1] \in {0, 1}
     ELSE r[1] = Bit(ContentEq(k, c, d))
CmpOK(k, c, d, r) ==
  IF k \in Unordered THEN \A i \in 3..8 : r[i] = NA
  ELSE LET o == ContentCmp(k, c, d) IN
       /\ r[3] = o
       /\ r[4] = Bit(o = -1) /\ r[5] = Bit(o \in {-1, 0})
       /\ r[6] = Bit(o = 1) /\ r[7] = Bit(o \in {0, 1})
       /\ IF HasNaN(k, c) \/ HasNaN(k, d) THEN TRUE ELSE r[8] \in {NA, o}
HashOK(k, c, d, r) ==
  IF k \in Unordered THEN r[9] = NA ELSE r[9] = (IF SameClasses(k, c, d) THEN 0 ELSE 1)
PtrOK(c, d, r) == r[10] # NA /\ c # d => r[10] = 0

PairOK ==
  LET c0 == Hist(E.k, Empty(E.k), E.base)
      c == Hist(E.k, c0, E.ha)
      d == Hist(E.k, c0, E.hb)
  IN /\ Shows(E.k, c, E.oa) /\ Shows(E.k, d, E.ob)
     /\ EqOK(E.k, c, d, E.r, E.r[10] = 1)
     /\ CmpOK(E.k, c, d, E.r)
     /\ HashOK(E.k, c, d, E.r)
     /\ PtrOK(c, d, E.r)

RelOK ==
  LET c == Hist(E.k, Empty(E.k), E.ha)
      d == Hist(E.k, Empty(E.k), E.hb)
  IN /\ Shows(E.k, c, E.oa) /\ Shows(E.k, d, E.ob)
     /\ E.r = Relations(c, d)

(* The stack! macro pushes its arguments in order; the others put them in iteration order. *)
CollOK ==
  LET c == IF E.k = "stack" /\ E.via = "macro" THEN Reverse(E.a) ELSE Collect(E.k, E.a)
  IN /\ E.n = Size(E.k, c)
     /\ Shows(E.k, c, E.o)
     /\ E.d = Displayed(E.k, E.o, E.how)

WordBits == 64
PowersOfTwo == {2, 4, 8, 16, 32, 64}
CtorOK ==
  LET good == IF E.f = "bits" THEN E.a > 0 /\ E.a < WordBits ELSE E.a \in PowersOfTwo
  IN /\ E.ok = Bit(good)
     /\ good => Shows(E.k, Hist(E.k, Empty(E.k), E.h), E.o)

(* Serialization: the shape, the announced length and the items. *)
SerOK ==
  LET c == Hist(E.k, Empty(E.k), E.h) IN
  /\ E.shape = (IF E.k \in MapKinds THEN "map" ELSE "seq")
  /\ E.len \in {-1, Size(E.k, c)}
  /\ E.named => E.len = Size(E.k, c)
  /\ Shows(E.k, c, E.o)
  /\ Shows(E.k, c, E.back)
  /\ E.eq = 1

(* Deserialization of `a`, which breaks off after `err` items (-1: does not), in the right shape or
   not. *)
DeOK ==
  IF E.err >= 0 \/ ~E.shape THEN E.ok = 0
  ELSE /\ E.ok = 1
       /\ LET c == Collect(E.k, E.a) IN E.n = Size(E.k, c) /\ Shows(E.k, c, E.o)

(* Parallel iteration: pieces of what each worker got. *)
RECURSIVE Concat(_, _)
Concat(p, i) == IF i > Len(p) THEN <<>> ELSE p[i] \o Concat(p, i + 1)
ParOK ==
  LET c == Hist(E.k, Empty(E.k), E.h)
      all == Concat(E.pieces, 1)
      got == {all[i] : i \in 1..Len(all)}
  IN /\ Cardinality(got) = Len(all)
     /\ got \subseteq ItemSet(E.k, c)
     /\ ~E.stopped => got = ItemSet(E.k, c)
     /\ E.count \in {-1, Size(E.k, c)}
     /\ E.found = NA \/ E.found = Bit(Cls(E.want) \in DOMAIN c)

(* A range query on contents with a given history. *)
RangeOK ==
  LET c == Hist(E.k, Empty(E.k), E.h) IN
  IF RangePanics(E.lo, E.hi) THEN E.p = 1
  ELSE E.p = 0 /\ SessionOK(RangeItems(E.k, c, E.lo, E.hi), E.steps, 1, FALSE)

IterOK ==
  LET c == Hist(E.k, Empty(E.k), E.h) IN
  /\ Shows(E.k, c, E.order)
  /\ SessionOK(CASE E.it = "keys" -> [i \in 1..Len(E.order) |-> E.order[i][1]]
                 [] E.it = "values" -> [i \in 1..Len(E.order) |-> E.order[i][2]]
                 [] OTHER -> E.order, E.steps, 1, TRUE)

(* Threads with handles of their own on versions that share structure.  A base is <<parent, calls>>;
   a thread is <<bases it has handles of, calls>>; a call is <<style, handle, name, arguments,
   destination or second handle>>.  Handles from 100 on are the common versions.  Whatever the
   schedule, a thread sees what it would see alone: the state of a thread is nothing but the contents
   of its own handles. *)
Bases == FoldLeft(LAMBDA acc, b :
                    Append(acc, Hist(E.k, IF acc = <<>> THEN Empty(E.k) ELSE acc[b[1]], b[2])),
                  <<>>, E.bases)
CommonFrom == 100
At(st, bs, h) == IF h >= CommonFrom THEN bs[E.common[h - CommonFrom + 1]] ELSE st[h]
ThreadStep(st, bs, o) ==
  LET m == Mut(E.k, o[3], At(st, bs, o[2]), o[4]) IN
  CASE o[1] = "m" -> (o[2] :> m.c) @@ st
    [] o[1] = "p" -> IF Yields(o[3], m) THEN (o[5] :> m.c) @@ st ELSE st
    [] o[1] = "c" -> (o[5] :> At(st, bs, o[2])) @@ st
    [] OTHER -> st
ThreadSees(st, bs, o, r) ==
  LET c == At(st, bs, o[2])
      d == At(st, bs, o[5])
  IN CASE o[1] \in {"m", "p"} -> r = Ret(o[3], o[1], Mut(E.k, o[3], c, o[4]))
       [] o[1] = "q" -> r = Query(E.k, o[3], c, o[4])
       [] o[1] = "o" -> Shows(E.k, c, r)
       [] o[1] = "e" -> r = <<Bit(ContentEq(E.k, c, d))>>
       [] o[1] = "t" -> IF r = <<1>> THEN c = d ELSE r \in {<<0>>, <<NA>>} /\ (o[2] = o[5] => r = <<NA>>)
       [] o[1] = "r" -> r = <<NA>> \/ r = Relations(c, d)
       [] OTHER -> r = <<>>
RECURSIVE ThreadFrom(_, _, _, _, _)
ThreadFrom(st, bs, ops, res, i) ==
  IF i > Len(ops) THEN TRUE
  ELSE ThreadSees(st, bs, ops[i], res[i]) /\ ThreadFrom(ThreadStep(st, bs, ops[i]), bs, ops, res, i + 1)
ThreadOK(bs, th, res) ==
  /\ Len(res) = Len(th[2])
  /\ ThreadFrom([h \in 0..(Len(th[1]) - 1) |-> bs[th[1][h + 1]]], bs, th[2], res, 1)
Versions == Len(E.bases) + FoldLeft(LAMBDA n, th : n + Len(th[1]) + Len(th[2]), 0, E.threads)
ThreadsOK ==
  LET bs == Bases IN
  /\ \A i \in 1..Len(E.outs) :
       /\ \A t \in 1..Len(E.threads) : ThreadOK(bs, E.threads[t], E.outs[i][1][t])
       /\ \A j \in 1..Len(E.common) : Shows(E.k, bs[E.common[j]], E.outs[i][2][j])
  /\ E.leak = 0 /\ E.cells = 0 /\ E.mis = 0 /\ E.bad = 0
  \* Releases nest as deep as versions were released at the same time, not as chains are long.
  /\ E.k \in {"list", "stack", "queue"} => E.nest <= 4 + 2 * Versions

(* Contents of any size: `big` has the steps of a history and every version that was kept, and
   what was asked of the last one. *)
BigSteps(k, h) == FoldLeft(LAMBDA acc, o : Append(acc, RunStep(k, acc[Len(acc)].c, o)),
                           <<RR(<<>>, 0, <<>>)>>, h)
BigShows(k, c, o) == o.n = RLen(c) /\ RSame(c, o.runs)
BigOK ==
  LET k == E.k
      s == BigSteps(k, E.h)
      c == s[Len(s)].c
      keys(r) == <<r[1], r[2], 0, 0, r[5]>>
      vals(r) == <<r[3], r[4], 0, 0, r[5]>>
      seen(it) == CASE it = "keys" -> [i \in 1..Len(c) |-> keys(c[i])]
                    [] it = "values" -> [i \in 1..Len(c) |-> vals(c[i])]
                    [] OTHER -> c
  IN /\ \A i \in 1..Len(E.h) : StepSays(E.h[i], s[i + 1])
     /\ \A i \in 1..Len(E.kept) : BigShows(k, s[E.kept[i].at + 1].c, E.kept[i])
     /\ \A i \in 1..Len(E.q) : E.q[i][3] = RunQuery(k, E.q[i][1], c, E.q[i][2])
     /\ \A i \in 1..Len(E.it) :
          IF k \in Unordered THEN RunIterAnyOK(k, IF E.it[i][1] = "values" THEN <<>> ELSE seen(E.it[i][1]), RLen(c), E.it[i][2], 1)
          ELSE RunIterOK(seen(E.it[i][1]), E.it[i][2], 1)
     /\ \A i \in 1..Len(E.rg) :
          LET g == E.rg[i] IN
          IF RangePanics(g[1], g[2]) THEN g[3] = 1
          ELSE g[3] = 0 /\ RunIterOK(RunRange(c, g[1], g[2]), g[4], 1)
     /\ E.leak = 0 /\ E.mis = 0
(* Two of them.  Equality and order, and the relations of sets. *)
BigPairOK ==
  LET k == E.k
      s == BigSteps(k, E.ha)
      t == BigSteps(k, E.hb)
      c == s[Len(s)].c
      d == t[Len(t)].c
      o == RunCmp(c, d)
  IN /\ BigShows(k, c, E.oa) /\ BigShows(k, d, E.ob)
     /\ E.r[1] = Bit(o = 0) /\ E.r[2] = 1 - E.r[1]
     /\ IF k \in Unordered THEN \A i \in 3..7 : E.r[i] = NA
        ELSE E.r[3] = o /\ E.r[4] = Bit(o = -1) /\ E.r[5] = Bit(o # 1)
             /\ E.r[6] = Bit(o = 1) /\ E.r[7] = Bit(o # -1)
     /\ E.hash = (IF k \in Unordered THEN NA ELSE IF o = 0 THEN 0 ELSE 1)
     /\ E.rel \in {<<NA>>, RunRelations(c, d)}

OK == CASE E.op = "pair" -> PairOK
        [] E.op = "big" -> BigOK
        [] E.op = "bigpair" -> BigPairOK
        [] E.op = "threads" -> ThreadsOK
        [] E.op = "relx" -> RelOK
        [] E.op = "coll" -> CollOK
        [] E.op = "ctor" -> CtorOK
        [] E.op = "ser" -> SerOK
        [] E.op = "de" -> DeOK
        [] E.op = "par" -> ParOK
        [] E.op = "range" -> RangeOK
        [] E.op = "it" -> IterOK
        [] E.op = "about" -> TRUE
        [] E.op = "cost" -> Costs!CostOK(E)
        [] E.op = "amort" -> Costs!AmortOK(E)
        [] E.op = "depth" -> Costs!DepthOK(E)
        [] E.op = "bulk" -> Costs!BulkOK(E)
        [] E.op = "foot" -> Costs!FootOK(E)
        [] E.op = "deep" -> Costs!DeepOK(E)
        [] E.op = "access" -> Costs!AccessOK(E)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ OK
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
