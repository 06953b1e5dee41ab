------------------------------ MODULE ListHeap ------------------------------
(***************************************************************************)
(* List (and Stack, which wraps it) at the level of the heap: nodes that   *)
(* versions share, reference counts, and the in-place operations, which    *)
(* write to a node only if nothing else refers to it and to a copy of it   *)
(* otherwise.  Several handles; every interleaving of operations on them.  *)
(* Checked:                                                                *)
(*   - a handle's contents change only by an operation on that handle,     *)
(*     and as RpdsOps says (C02, C07, C08),                                *)
(*   - `last` and `length` agree with the nodes,                           *)
(*   - no element exists that no handle holds once the unreferenced nodes  *)
(*     are released, and a shared suffix exists once (C15, C17).           *)
(* Every transition is printed, to be taken in the real code.              *)
(***************************************************************************)
EXTENDS RpdsOps, Json

CONSTANTS Handles,   \* 0..n
          Values,    \* values that are pushed
          MaxLen,    \* of one list
          MaxNodes,  \* in the heap
          Stackish,  \* use the names of Stack?
          Emit

VARIABLES heap,   \* node |-> [v, next]; 0 is no node
          head, lst, length, live, last
vars == <<heap, head, lst, length, live, last>>

K == IF Stackish THEN "stack" ELSE "list"
FPush == IF Stackish THEN "push" ELSE "push_front"
FDrop == IF Stackish THEN "pop" ELSE "drop_first"

RECURSIVE Chain(_, _)
Chain(hp, n) == IF n = 0 THEN <<>> ELSE <<n>> \o Chain(hp, hp[n].next)
Vals(hp, n) == LET c == Chain(hp, n) IN [i \in 1..Len(c) |-> hp[c[i]].v]

(* How many references there are to a node from the handles and the nodes. *)
Refs(hp, hd, n) == Cardinality({h \in Handles : hd[h] = n})
                   + Cardinality({m \in DOMAIN hp : hp[m].next = n})
Used(hp, hd) == UNION {{Chain(hp, hd[h])[i] : i \in 1..Len(Chain(hp, hd[h]))} : h \in Handles}

(* Releases what is not referred to and renames the rest in the order of the handles. *)
Order(hp, hd) ==
  FoldLeft(LAMBDA acc, h :
             acc \o SelectSeq(Chain(hp, hd[h]), LAMBDA n : ~\E i \in 1..Len(acc) : acc[i] = n),
           <<>>, Sorted(Handles))
Canon(hp, hd) ==
  LET o == Order(hp, hd)
      new(n) == IF n = 0 THEN 0 ELSE CHOOSE i \in 1..Len(o) : o[i] = n
  IN [hp |-> [i \in 1..Len(o) |-> [v |-> hp[o[i]].v, next |-> new(hp[o[i]].next)]],
      hd |-> [h \in Handles |-> new(hd[h])]]

New(hp) == IF DOMAIN hp = {} THEN 1 ELSE MaxOf(DOMAIN hp) + 1
Alloc(hp, v, next) == (New(hp) :> [v |-> v, next |-> next]) @@ hp

(* The loop of reverse_mut.  The handle has given up its head, so `cur` is counted on its own: it
   may be written to if nothing in the heap refers to it. *)
RECURSIVE Rev(_, _, _, _)
Rev(hp, hd, prev, cur) ==
  IF cur = 0 THEN [hp |-> hp, head |-> prev]
  ELSE IF Refs(hp, hd, cur) = 0
       THEN Rev([hp EXCEPT ![cur].next = prev], hd, cur, hp[cur].next)
       ELSE Rev(Alloc(hp, hp[cur].v, prev), hd, New(hp), hp[cur].next)

(* What a list is after an operation: heap, head, last value, length. *)
PushOn(h, v) == [hp |-> Alloc(heap, v, head[h]), head |-> New(heap),
                 lst |-> IF length[h] = 0 THEN v ELSE lst[h], length |-> length[h] + 1]
DropOn(h) == IF head[h] = 0 THEN [hp |-> heap, head |-> 0, lst |-> lst[h], length |-> length[h]]
             ELSE [hp |-> heap, head |-> heap[head[h]].next,
                   lst |-> IF length[h] = 1 THEN 0 ELSE lst[h], length |-> length[h] - 1]
RevInPlace(h) ==
  LET r == Rev(heap, [head EXCEPT ![h] = 0], 0, head[h])
  IN [hp |-> r.hp, head |-> r.head,
      lst |-> IF head[h] = 0 THEN 0 ELSE heap[head[h]].v, length |-> length[h]]
RevCopy(h) ==
  LET r == FoldLeft(LAMBDA acc, v : [hp |-> Alloc(acc.hp, v, acc.head), head |-> New(acc.hp)],
                    [hp |-> heap, head |-> 0], Vals(heap, head[h]))
  IN [hp |-> r.hp, head |-> r.head,
      lst |-> IF head[h] = 0 THEN 0 ELSE heap[head[h]].v, length |-> length[h]]

----------------------------------------------------------------------------
Abs(h) == Vals(heap, head[h])
Shown(hp, hd, lv) ==
  [i \in 1..Cardinality(Handles) |-> IF lv[i - 1] THEN <<1, Vals(hp, hd[i - 1])>> ELSE <<0, <<>> >>]
Str(hp, hd, lv, lt, ln) ==
  ToString(<< [i \in 1..Len(hp) |-> <<hp[i].v, hp[i].next>>],
              [i \in 1..Cardinality(Handles) |-> <<hd[i - 1], lv[i - 1], lt[i - 1], ln[i - 1]>>] >>)

(* Handle g becomes the list x by operation f on h. *)
Becomes(y, f, h, g, a, x, ok) ==
  LET c == Canon(x.hp, [head EXCEPT ![g] = x.head])
      lv == [live EXCEPT ![g] = TRUE]
      lt == [lst EXCEPT ![g] = x.lst]
      ln == [length EXCEPT ![g] = x.length]
  IN /\ heap' = c.hp
     /\ head' = c.hd
     /\ live' = lv
     /\ lst' = lt
     /\ length' = ln
     /\ last' = [y |-> y, f |-> f, h |-> h, g |-> g, a |-> a]
     /\ Cardinality(DOMAIN c.hp) <= MaxNodes
     /\ ~Emit \/ PrintT(ToJson([s |-> Str(heap, head, live, lst, length), y |-> y, f |-> f, h |-> h,
                                g |-> g, a |-> a,
                                r |-> IF y = "c" THEN <<>> ELSE Ret(f, y, Mut(K, f, Abs(h), a)),
                                d |-> Str(c.hp, c.hd, lv, lt, ln),
                                hs |-> Shown(c.hp, c.hd, lv)]))
Forget(h) ==
  LET c == Canon(heap, [head EXCEPT ![h] = 0])
      lv == [live EXCEPT ![h] = FALSE]
      lt == [lst EXCEPT ![h] = 0]
      ln == [length EXCEPT ![h] = 0]
  IN /\ heap' = c.hp
     /\ head' = c.hd
     /\ live' = lv
     /\ lst' = lt
     /\ length' = ln
     /\ last' = [y |-> "x", f |-> "", h |-> h, g |-> h, a |-> <<>>]
     /\ ~Emit \/ PrintT(ToJson([s |-> Str(heap, head, live, lst, length), y |-> "x", f |-> "",
                                h |-> h, g |-> h, a |-> <<>>, r |-> <<>>,
                                d |-> Str(c.hp, c.hd, lv, lt, ln), hs |-> Shown(c.hp, c.hd, lv)]))

Same(h) == [hp |-> heap, head |-> head[h], lst |-> lst[h], length |-> length[h]]

Init == /\ heap = <<>>
        /\ head = [h \in Handles |-> 0]
        /\ lst = [h \in Handles |-> 0]
        /\ length = [h \in Handles |-> 0]
        /\ live = [h \in Handles |-> h = 0]
        /\ last = [y |-> "", f |-> "", h |-> 0, g |-> 0, a |-> <<>>]
Next ==
  \E h \in Handles :
    /\ live[h]
    /\ \/ \E v \in Values : length[h] < MaxLen /\ Becomes("m", FPush, h, h, <<v * Tag>>, PushOn(h, v * Tag), TRUE)
       \/ Becomes("m", FDrop, h, h, <<>>, DropOn(h), length[h] > 0)
       \/ ~Stackish /\ Becomes("m", "reverse", h, h, <<>>, RevInPlace(h), TRUE)
       \/ \E g \in Handles \ {h} :
            \/ ~live[g] /\ Becomes("c", "", h, g, <<>>, Same(h), TRUE)
            \/ \E v \in Values :
                 length[h] < MaxLen /\ Becomes("p", FPush, h, g, <<v * Tag>>, PushOn(h, v * Tag), TRUE)
            \/ length[h] > 0 /\ Becomes("p", FDrop, h, g, <<>>, DropOn(h), TRUE)
            \/ ~Stackish /\ Becomes("p", "reverse", h, g, <<>>, RevCopy(h), TRUE)
       \/ Cardinality({g \in Handles : live[g]}) > 1 /\ Forget(h)
Spec == Init /\ [][Next]_vars
View == <<heap, head, lst, length, live>>

Inv == \A h \in Handles :
         /\ length[h] = Len(Abs(h))
         /\ lst[h] = IF Abs(h) = <<>> THEN 0 ELSE Abs(h)[Len(Abs(h))]
         /\ ~live[h] => head[h] = 0
NoGarbage == DOMAIN heap = Used(heap, head)

Refines ==
  [][ /\ last'.f # "" => Vals(heap', head'[last'.g]) = Mut(K, last'.f, Abs(last'.h), last'.a).c
      /\ last'.y = "c" => Vals(heap', head'[last'.g]) = Abs(last'.h)
      /\ \A h \in Handles : h # last'.g => Vals(heap', head'[h]) = Abs(h) ]_vars
(* The persistent forms share: pushing adds one node, dropping none. *)
Sharing ==
  [][ /\ last'.y = "p" /\ last'.f = FPush /\ ~live[last'.g] => Len(heap') = Len(heap) + 1
      /\ last'.y \in {"c"} \/ (last'.y = "p" /\ last'.f = FDrop) => Len(heap') <= Len(heap)
      /\ last'.y = "m" /\ last'.f = "reverse" /\ (\A n \in DOMAIN heap : Refs(heap, head, n) = 1)
           => Len(heap') = Len(heap) ]_vars
=============================================================================
