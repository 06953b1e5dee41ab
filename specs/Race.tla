-------------------------------- MODULE Race --------------------------------
(***************************************************************************)
(* Threads that pop, push, reverse, clone and drop lists which share       *)
(* nodes, at the level of the single steps on reference counts: increment, *)
(* decrement, "take it if the count is one", "write to it if the count is  *)
(* one".  TLC explores every interleaving of these steps.  Checked:        *)
(*   - no step touches a node that has been released, and no node is       *)
(*     released twice (the count never drops below zero),                  *)
(*   - the contents of every handle are what its own thread made of them,  *)
(*     and no shared node is ever written to (C07, C19),                   *)
(*   - when all handles are gone, all nodes are (C15, C19),                *)
(*   - releases nest no deeper than there are handles, however long the    *)
(*     chain (C18).  With NodeDrop = FALSE, which is how the library was   *)
(*     before it was repaired, they nest as deep as the chain is long.     *)
(* Every transition is printed; the harness takes paths that cover them    *)
(* all with real threads and real lists.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Threads,   \* 1..n
          Lengths,   \* of the chain in the beginning
          Kept,      \* is there a handle of the whole chain that nobody drops?  Set of BOOLEAN.
          MaxOps,    \* other than drops, of one thread
          Ops,       \* subset of {"pop", "push", "reverse", "clone"}
          NodeDrop,  \* do nodes release their successors in a loop (or only lists)?
          Emit

Slots == {0, 1}
MainSlot == 0

VARIABLES nodes,  \* node |-> [v, next, rc]
          slot,   \* thread, slot |-> [live, head, want]
          todo,   \* thread |-> steps to come, the next one first
          left,   \* thread |-> how many operations it may still begin
          nest,   \* thread |-> how deep its current release nests
          start,  \* how it all began
          bad     \* something impossible has happened
vars == <<nodes, slot, todo, left, nest, start, bad>>

RECURSIVE Vals(_, _)
Vals(nd, n) == IF n = 0 THEN <<>> ELSE <<nd[n].v>> \o Vals(nd, nd[n].next)

RECURSIVE Down(_)
Down(n) == IF n = 0 THEN <<>> ELSE <<n>> \o Down(n - 1)

(* Thread t has a handle of the chain from heads[t] on, in its slot 0. *)
Init ==
  \E n \in Lengths, k \in Kept : \E heads \in [Threads -> 1..n] :
    /\ start = [n |-> n, heads |-> [t \in 1..Cardinality(Threads) |-> heads[t]], kept |-> k]
    /\ nodes = [i \in 1..n |->
                  [v |-> i, next |-> i - 1,
                   rc |-> Cardinality({t \in Threads : heads[t] = i}) + (IF i < n THEN 1 ELSE 0)
                          + (IF k /\ i = n THEN 1 ELSE 0)]]
    \* Nobody may hold the nodes at the top.
    /\ k \/ \E t \in Threads : heads[t] = n
    /\ slot = [t \in Threads |-> [s \in Slots |->
                 IF s = 0 THEN [live |-> TRUE, head |-> heads[t], want |-> Down(heads[t])]
                 ELSE [live |-> FALSE, head |-> 0, want |-> <<>>]]]
    /\ todo = [t \in Threads |-> <<>>]
    /\ left = [t \in Threads |-> MaxOps]
    /\ nest = [t \in Threads |-> 0]
    /\ bad = FALSE

----------------------------------------------------------------------------
(* Steps.  i is inc, dec, try (a loop that releases the chain from n on),  *)
(* mut (the loop of reverse: n is to be the successor's successor p),      *)
(* fin (the operation is over: slot s has head n and shows w).             *)
St(i, n, p, s, w) == [i |-> i, n |-> n, p |-> p, s |-> s, w |-> w]
Inc(n) == IF n = 0 THEN <<>> ELSE <<St("inc", n, 0, 0, <<>>)>>
Dec(n) == IF n = 0 THEN <<>> ELSE <<St("dec", n, 0, 0, <<>>)>>
Drp(n) == IF n = 0 THEN <<>> ELSE <<St(IF NodeDrop THEN "dec" ELSE "try", n, 0, 0, <<>>)>>
Try(n) == IF n = 0 THEN <<>> ELSE <<St("try", n, 0, 0, <<>>)>>
Mut(n, p, s, w) == St("mut", n, p, s, w)
Fin(s, n, w) == St("fin", n, 0, s, w)

New(nd) == 1 + CHOOSE m \in DOMAIN nd : \A x \in DOMAIN nd : x <= m
Rest(s) == SubSeq(s, 2, Len(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* Everything local up to the next step on a count is done at once. *)
Settle(t, nd, sl, td) ==
  IF td # <<>> /\ td[1].i = "fin"
  THEN /\ slot' = [sl EXCEPT ![t][td[1].s] = [live |-> TRUE, head |-> td[1].n, want |-> td[1].w]]
       /\ todo' = [todo EXCEPT ![t] = Rest(td)]
       /\ nodes' = nd
  ELSE /\ slot' = sl
       /\ todo' = [todo EXCEPT ![t] = td]
       /\ nodes' = nd

(* Explicit tuples: the order of the fields of a record is not always printed the same. *)
Named(nd, sl, td, lf) ==
  ToString(<< [n \in 1..Cardinality(DOMAIN nd) |-> <<nd[n].v, nd[n].next, nd[n].rc>>],
              [t \in 1..Cardinality(Threads) |->
                 << lf[t], [i \in 1..Len(td[t]) |->
                      <<td[t][i].i, td[t][i].n, td[t][i].p, td[t][i].s, td[t][i].w>>],
                    [s \in 1..2 |-> <<sl[t][s - 1].live, sl[t][s - 1].head, sl[t][s - 1].want>>] >>],
              start.n, start.heads, start.kept >>)
Show_(t, o, p) ==
  IF Emit THEN PrintT(ToJson([s |-> Named(nodes, slot, todo, left), d |-> Named(nodes', slot', todo', left'),
                          i |-> start, t |-> t, o |-> o, p |-> p]))
  ELSE TRUE

Begin(t) ==
  /\ todo[t] = <<>>
  /\ UNCHANGED <<nest, start, bad>>
  /\ \E s \in Slots :
       LET x == slot[t][s] IN
       /\ x.live
       /\ \/ \* drop
             /\ Settle(t, nodes, [slot EXCEPT ![t][s] = [live |-> FALSE, head |-> 0, want |-> <<>>]],
                       Drp(x.head))
             /\ left' = left
             /\ Show_(t, <<"x", s>>, 0)
          \/ /\ left[t] > 0
             /\ left' = [left EXCEPT ![t] = @ - 1]
             /\ \/ /\ "pop" \in Ops /\ x.head # 0
                   /\ LET n == nodes[x.head].next IN
                      Settle(t, nodes, slot, Inc(n) \o Dec(x.head) \o <<Fin(s, n, Rest(x.want))>>)
                   /\ Show_(t, <<"pop", s>>, 0)
                \/ /\ "push" \in Ops
                   /\ LET n == New(nodes) IN
                      Settle(t, (n :> [v |-> 10 + t, next |-> x.head, rc |-> 1]) @@ nodes,
                             [slot EXCEPT ![t][s] = [live |-> TRUE, head |-> n,
                                                     want |-> <<10 + t>> \o x.want]], <<>>)
                   /\ Show_(t, <<"push", s>>, 0)
                \/ /\ "clone" \in Ops /\ s = 0 /\ ~slot[t][1].live
                   /\ Settle(t, nodes, slot, Inc(x.head) \o <<Fin(1, x.head, x.want)>>)
                   /\ Show_(t, <<"clone", s>>, 0)
                \/ /\ "reverse" \in Ops /\ x.head # 0
                   /\ Settle(t, nodes, slot, <<Mut(x.head, 0, s, Rev(x.want))>>)
                   /\ Show_(t, <<"reverse", s>>, 0)

Alive(n) == n \in DOMAIN nodes /\ nodes[n].rc > 0

Step(t) ==
  /\ todo[t] # <<>>
  /\ LET x == todo[t][1]
         n == x.n
         r == Rest(todo[t])
         one == Alive(n) /\ nodes[n].rc = 1
         next == nodes[n].next
     IN
     /\ UNCHANGED <<left, start>>
     /\ bad' = (bad \/ ~Alive(n))
     /\ CASE x.i = "inc" ->
               /\ Settle(t, [nodes EXCEPT ![n].rc = @ + 1], slot, r)
               /\ UNCHANGED nest
          [] x.i = "dec" ->
               /\ Settle(t, [nodes EXCEPT ![n].rc = @ - 1], slot,
                         IF one THEN (IF NodeDrop THEN Try(next) ELSE Dec(next)) \o r ELSE r)
               /\ nest' = [nest EXCEPT ![t] = IF one THEN @ + 1 ELSE 0]
          [] x.i = "try" ->
               /\ Settle(t, IF one THEN [nodes EXCEPT ![n].rc = 0] ELSE nodes, slot,
                         (IF one THEN Try(next) ELSE Dec(n)) \o r)
               /\ nest' = [nest EXCEPT ![t] = IF one /\ next = 0 THEN 0 ELSE @]
          [] x.i = "mut" ->
               \* Write in place, or go on with a copy: the copy holds the successor, too, until the
               \* original is let go.
               LET c == New(nodes)
                   go(cur, nd) == IF next = 0 THEN <<Fin(x.s, cur, x.w)>>
                                  ELSE <<Mut(next, cur, x.s, x.w)>>
               IN /\ IF one
                     THEN Settle(t, [nodes EXCEPT ![n].next = x.p], slot, go(n, nodes) \o r)
                     ELSE Settle(t, (c :> [v |-> nodes[n].v, next |-> x.p, rc |-> 1]) @@ nodes, slot,
                                 Inc(next) \o Dec(n) \o go(c, nodes) \o r)
                  /\ UNCHANGED nest
  /\ Show_(t, <<"", 0>>, 1)

Next == \E t \in Threads : Begin(t) \/ Step(t)
Spec == Init /\ [][Next]_vars

Fine == ~bad
(* A slot that an operation is under way on shows nothing yet. *)
Busy(t, s) == \E i \in 1..Len(todo[t]) : todo[t][i].i \in {"fin", "mut"} /\ todo[t][i].s = s
Shows ==
  \A t \in Threads : \A s \in Slots :
    slot[t][s].live /\ ~Busy(t, s) => /\ Vals(nodes, slot[t][s].head) = slot[t][s].want
                                      /\ slot[t][s].head # 0 => Alive(slot[t][s].head)
KeptShows == start.kept => Vals(nodes, start.n) = Down(start.n)
Over == \A t \in Threads : todo[t] = <<>> /\ \A s \in Slots : ~slot[t][s].live
Released == Over => \A n \in DOMAIN nodes :
                      (nodes[n].rc = 0) = ~(start.kept /\ n <= start.n)
(* One more than the other handles that can be let go of meanwhile. *)
Bounded == \A t \in Threads : nest[t] <= 2 * Cardinality(Threads)
Flat == \A t \in Threads : nest[t] <= 1
=============================================================================
