------------------------------ MODULE ApiTrace ------------------------------
(***************************************************************************)
(* Trace specification: is a recorded history of public calls (one event   *)
(* per returned call, with arguments, results and observed contents) a     *)
(* behaviour of RpdsOps?  A version is only changed by an in-place call    *)
(* through its own handle; every event that observes any handle is checked *)
(* against the contents that handle must have (C07).                       *)
(*                                                                         *)
(* Validated with POSTCONDITION Accepted: one state per consumed event.    *)
(***************************************************************************)
EXTENDS RpdsOps, Json, IOUtils

Costs == INSTANCE Costs

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  l,        \* position in Trace
  kind,     \* the kind of structure driven since the last reset
  store,    \* handle |-> [c, id, par, ok]: contents, identity, identity it was changed from
  fresh,    \* next identity
  cfg       \* how the structures are set up

vars == <<l, kind, store, fresh, cfg>>

Slots == 0..7
None == [live |-> FALSE, c |-> <<>>, id |-> 0, par |-> 0]
Ver(c, id, par) == [live |-> TRUE, c |-> c, id |-> id, par |-> par]

Init == /\ l = 1
        /\ kind = "none"
        /\ store = [h \in Slots |-> None]
        /\ fresh = 1
        /\ cfg = [bits |-> 5, w |-> 64, hm |-> 0]

E == Trace[l]
IsEvent(op) == /\ l <= Len(Trace) /\ E.op = op /\ l' = l + 1

C(h) == store[h].c

(* The observation attached to an event: the contents of handle h, freshly iterated, and the size
   the structure reports. *)
Observed(c) == E.n = Size(kind, c) /\ Shows(kind, c, E.o)

(* What a call may cost, where that was counted: see Costs.  How many keys have the hash of the
   one asked for is not known here, unless the hashes spread; an extend is that many pushes. *)
Priced(f, s, n, m) ==
  LET b == Costs!Bound([k |-> kind, f |-> f, s |-> s, n |-> n, bits |-> cfg.bits, w |-> cfg.w,
                        hm |-> cfg.hm, bk |-> IF cfg.hm \in {0, 7, 13} THEN 1 ELSE n + 1])
  IN \A i \in 1..10 : E.x[i] <= m * b[i]
CostOK(c, c2) ==
  "x" \in DOMAIN E /\ E.r # Panicked =>
     LET n == Costs!Max(Size(kind, c), Size(kind, c2)) IN
     CASE E.f = "extend" -> Priced(IF kind = "vector" THEN "push_back" ELSE "push_front", "p", n, Len(E.a) + 1)
       [] E.f = "index" -> Priced("get", "q", n, 1)
       [] E.f = "insert" /\ kind \in {"hmap", "hset"} /\ Size(kind, c2) > Size(kind, c) ->
            Priced("insert_new", "s", n, 1)
       [] OTHER -> Priced(E.f, IF E.op = "q" THEN "q" ELSE "s", n, 1)

Reset == /\ IsEvent("reset")
         /\ kind' = E.k
         /\ store' = [h \in Slots |-> None]
         /\ fresh' = 1
         /\ cfg' = [bits |-> E.bits, w |-> E.w, hm |-> E.hm]

(* Collecting or deserializing; p = 1: a callback panicked, p = 2: the input ended in an error.   *)
(* Then nothing comes out of it, and what was taken from the input is gone.                       *)
Unmade == /\ IsEvent("make")
          /\ E.p \in {1, 2}
          /\ E.w = 0
          /\ UNCHANGED <<kind, store, fresh>>

Make == /\ IsEvent("make")
        /\ E.p = 0
        /\ LET c == Collect(kind, E.a) IN
           /\ Observed(c)
           /\ store' = [store EXCEPT ![E.d] = Ver(c, fresh, 0)]
        /\ fresh' = fresh + 1
        /\ UNCHANGED kind

(* A mutating call that completed. *)
MutCall ==
  /\ IsEvent("mut")
  /\ E.p = 0
  /\ LET c == C(E.h)
         m == Mut(kind, E.f, c, E.a)
         id == store[E.h].id
     IN /\ E.r = Ret(E.f, E.s, m)
        /\ CostOK(c, m.c)
        /\ IF E.s = "p"
           THEN /\ E.w = Bit(Yields(E.f, m))
                /\ Observed(m.c)
                /\ store' = IF ~Yields(E.f, m) THEN store
                            ELSE [store EXCEPT ![E.d] =
                                    IF m.ok THEN Ver(m.c, fresh, id) ELSE Ver(c, id, store[E.h].par)]
           ELSE /\ Observed(m.c)
                /\ store' = [store EXCEPT ![E.h] =
                              Ver(m.c, fresh, IF m.ok /\ E.f \in {"insert", "remove"} THEN id ELSE 0)]
  /\ fresh' = fresh + 1
  /\ UNCHANGED kind

(* A mutating call interrupted by a panic in the user's code (C20): nothing happened, except that
   an interrupted extend may have appended some of the items it got, in order. *)
Interrupted ==
  /\ IsEvent("mut")
  /\ E.p = 1
  /\ E.r = Panicked
  /\ E.w = 0
  /\ LET got == IF E.f = "extend" THEN E.n - Len(C(E.h)) ELSE 0
         c == IF got = 0 THEN C(E.h) ELSE C(E.h) \o Take(E.a, got)
     IN /\ IF got = 0 THEN TRUE ELSE got \in 1..E.k
        /\ Observed(c)
        /\ store' = [store EXCEPT ![E.h] = IF E.s = "p" THEN @ ELSE Ver(c, fresh, 0)]
  /\ fresh' = fresh + 1
  /\ UNCHANGED kind

Ask == /\ IsEvent("q")
       /\ E.r = Query(kind, E.f, C(E.h), E.a)
       /\ CostOK(C(E.h), C(E.h))
       /\ UNCHANGED <<kind, store, fresh>>

Clone == /\ IsEvent("clone")
         /\ Observed(C(E.h))
         /\ "x" \in DOMAIN E => Priced("clone", "q", 0, 1)
         /\ store' = [store EXCEPT ![E.d] = store[E.h]]
         /\ UNCHANGED <<kind, fresh>>

DropIt == /\ IsEvent("drop")
          /\ store' = [store EXCEPT ![E.h] = None]
          /\ UNCHANGED <<kind, fresh>>

(* All versions still have their contents. *)
All == /\ IsEvent("all")
       /\ {E.hs[i] : i \in 1..Len(E.hs)} = {h \in Slots : store[h].live}
       /\ \A i \in 1..Len(E.hs) :
            /\ E.ns[i] = Size(kind, C(E.hs[i]))
            /\ Shows(kind, C(E.hs[i]), E.os[i])
       /\ UNCHANGED <<kind, store, fresh>>

Project(it, o) ==
  CASE it = "iter" -> o
    [] it = "keys" -> [i \in 1..Len(o) |-> o[i][1]]
    [] it = "values" -> [i \in 1..Len(o) |-> o[i][2]]

Iterate == /\ IsEvent("it")
           /\ E.it # "panic"
           /\ Shows(kind, C(E.h), E.order)
           /\ SessionOK(Project(E.it, E.order), E.steps, 1, TRUE)
           /\ UNCHANGED <<kind, store, fresh>>

RangeIt ==
  /\ IsEvent("range")
  /\ IF RangePanics(E.lo, E.hi) THEN E.p = 1
     ELSE /\ E.p = 0
          /\ SessionOK(RangeItems(kind, C(E.h), E.lo, E.hi), E.steps, 1, FALSE)
  /\ UNCHANGED <<kind, store, fresh>>

(* Identity (C12): the same version is identical; identical versions have the same contents; a
   version is not identical to the one it was changed from. *)
PtrEq == /\ IsEvent("peq")
         /\ LET a == store[E.h]
                b == store[E.g]
            IN /\ E.r \in {<<0>>, <<1>>}
               /\ a.id = b.id => E.r = <<1>>
               /\ a.c # b.c => E.r = <<0>>
               /\ (a.par = b.id \/ b.par = a.id) => E.r = <<0>>
         /\ UNCHANGED <<kind, store, fresh>>

Relate == /\ IsEvent("rel")
          /\ E.r = Relations(C(E.h), C(E.g))
          /\ UNCHANGED <<kind, store, fresh>>

Display == /\ IsEvent("disp")
           /\ Shows(kind, C(E.h), E.o)
           /\ E.r = Displayed(kind, E.o, E.how)
           /\ UNCHANGED <<kind, store, fresh>>

(* C15: the live elements are those of the live versions: none was dropped twice, none is missing,
   none is kept, and no element exists more often than versions hold it. *)
Codes(k, c) == IF k \in SeqKinds THEN {c[i] : i \in 1..Len(c)}
               ELSE UNION {{c[x][i] : i \in 1..Len(c[x])} : x \in DOMAIN c}
Live == /\ IsEvent("live")
        /\ E.mis = 0
        /\ LET held == {h \in Slots : store[h].live}
               want == UNION {Codes(kind, C(h)) : h \in held}
               have == {E.codes[i] : i \in 1..Len(E.codes)}
           IN /\ have = want
              /\ Len(E.codes) > Cardinality(have) =>
                   \A x \in have :
                     Cardinality({i \in 1..Len(E.codes) : E.codes[i] = x})
                       <= Cardinality({h \in held : x \in Codes(kind, C(h))})
        /\ UNCHANGED <<kind, store, fresh>>

Next == \/ Reset
        \/ /\ Make \/ Unmade \/ MutCall \/ Interrupted \/ Ask \/ Clone \/ DropIt \/ All
              \/ Iterate \/ RangeIt \/ PtrEq \/ Relate \/ Display \/ Live
           /\ UNCHANGED cfg

Spec == Init /\ [][Next]_vars

(* Immutability of versions, as an action property of the specification itself: a step changes at
   most the one version its event names. *)
OnlyNamed ==
  [][ \A h \in Slots :
        store[h] # store'[h] =>
          \/ E.op = "reset"
          \/ E.op \in {"make", "clone"} /\ E.d = h
          \/ E.op = "mut" /\ (IF E.s = "m" THEN E.h = h ELSE E.d = h)
          \/ E.op = "drop" /\ E.h = h ]_vars

View == l

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
