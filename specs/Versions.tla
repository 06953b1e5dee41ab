------------------------------ MODULE Versions ------------------------------
(***************************************************************************)
(* Every history of up to Depth operations on up to two handles of one     *)
(* kind of structure, from a given start.  A version is a value: an        *)
(* operation gives the handle it names a new value and no other handle     *)
(* changes (C07), and the in-place form does to its handle what the        *)
(* persistent form returns (C08).  States are histories, so nothing about  *)
(* how versions share structure is abstracted away: each history is taken  *)
(* in the real code from the start, looking at all handles after each      *)
(* call.                                                                   *)
(***************************************************************************)
EXTENDS RpdsOps, Json
CONSTANTS K,        \* the kind
          Depth,
          Size0,    \* elements at the start
          BitsOrDegree,
          Wide,     \* many places, changed in place only, on two handles
          Emit
VARIABLES store,    \* handle |-> [live, c]
          path,     \* the operations so far
          last
vars == <<store, path, last>>
Hs == {0, 1}

El(i) == i * Tag
KV(k, v) == IF K \in MapKinds THEN <<k * Tag + v, 10000000 + v>> ELSE <<k * Tag + v>>
Keys == 1..Size0
(* New elements carry the time, so that they can be told apart. *)
Now == Len(path) + 1
Places == IF K = "vector" THEN {i \in 0..(Size0 - 1) : i % (2 ^ BitsOrDegree) \in {0, BitsOrDegree}}
          ELSE {i \in 1..Size0 : i % 2 = 1}
WideMuts ==
  CASE K = "vector" -> {<<"set", <<i, El(50 + Now)>>>> : i \in {j \in Places : j % (2 ^ BitsOrDegree) = 0}}
                       \cup {<<"get_mut", <<i, El(50 + Now)>>>> : i \in {j \in Places : j % (2 ^ BitsOrDegree) # 0}}
                       \cup {<<"push_back", <<El(50 + Now)>>>>, <<"drop_last", <<>>>>}
    [] K \in MapKinds -> {<<"insert", KV(i, Now)>> : i \in Places}
                         \cup {<<"get_mut", <<El(i), 10000000 + Now>>>> : i \in Places}
                         \cup {<<"remove", <<El(i)>>>> : i \in (1..Size0) \ Places}
                         \cup {<<"insert", KV(Size0 + 1, Now)>>}
    [] OTHER -> {<<"insert", KV(i, Now)>> : i \in Places} \cup {<<"insert", KV(Size0 + 1, Now)>>}
                \cup {<<"remove", <<El(i)>>>> : i \in 1..Size0}
Muts ==
  IF Wide THEN WideMuts ELSE
  CASE K = "list" -> {<<"push_front", <<El(50 + Now)>>>>, <<"drop_first", <<>>>>, <<"reverse", <<>>>>}
    [] K = "stack" -> {<<"push", <<El(50 + Now)>>>>, <<"pop", <<>>>>}
    [] K = "queue" -> {<<"enqueue", <<El(50 + Now)>>>>, <<"dequeue", <<>>>>}
    [] K = "vector" -> {<<"push_back", <<El(50 + Now)>>>>, <<"drop_last", <<>>>>,
                        <<"set", <<0, El(50 + Now)>>>>, <<"get_mut", <<Size0 - 1, El(50 + Now)>>>>}
    [] K \in MapKinds -> {<<"insert", KV(Size0 + 1, Now)>>, <<"insert", KV(1, Now)>>,
                          <<"remove", <<El(1)>>>>, <<"remove", <<El(Size0 - 1)>>>>,
                          <<"get_mut", <<El(2), 10000000 + Now>>>>}
    [] K \in SetKinds -> {<<"insert", KV(Size0 + 1, Now)>>, <<"insert", KV(1, Now)>>,
                          <<"remove", <<El(1)>>>>, <<"remove", <<El(Size0 - 1)>>>>}
Persistent(f) == f # "get_mut"
Items0 == IF K \in MapKinds
          THEN [i \in 1..(2 * Size0) |-> IF i % 2 = 1 THEN El((i + 1) \div 2) ELSE 10000000 + El(i)]
          ELSE [i \in 1..Size0 |-> El(i)]

C(h) == store[h].c
Str(p) == FoldLeft(LAMBDA acc, x : acc \o ToString(x), "", p)
Show(k, c) == IF k \in Unordered THEN SetToSeq(ItemSet(k, c)) ELSE Items(k, c)
Shown(st) == [i \in 1..2 |-> IF st[i - 1].live THEN <<1, Show(K, st[i - 1].c)>> ELSE <<0, <<>> >>]

Step(y, f, h, g, a, st2, r) ==
  LET p2 == Append(path, <<y, f, h, a>>) IN
  /\ store' = st2
  /\ path' = p2
  /\ last' = [y |-> y, f |-> f, h |-> h, g |-> g, a |-> a]
  /\ ~Emit \/ PrintT(ToJson([s |-> Str(path), y |-> y, f |-> f, h |-> h, g |-> g, a |-> a, r |-> r,
                             d |-> Str(p2), hs |-> Shown(st2)]))
Init == /\ store = [h \in Hs |-> [live |-> h = 0, c |-> IF h = 0 THEN Collect(K, Items0) ELSE Empty(K)]]
        /\ path = <<>>
        /\ last = [y |-> "", f |-> "", h |-> 0, g |-> 0, a |-> <<>>]
Next ==
  /\ Len(path) < Depth
  /\ \E h \in Hs :
       LET g == 1 - h IN
       /\ store[h].live
       /\ \/ \E op \in Muts :
               LET m == Mut(K, op[1], C(h), op[2]) IN
               \/ Step("m", op[1], h, h, op[2], [store EXCEPT ![h].c = m.c], Ret(op[1], "m", m))
               \/ /\ ~Wide /\ Persistent(op[1])
                  /\ (IF m.ok THEN TRUE ELSE op[1] = "remove")
                  /\ Step("p", op[1], h, g, op[2], [store EXCEPT ![g] = [live |-> TRUE, c |-> m.c]],
                          Ret(op[1], "p", m))
          \/ /\ ~store[g].live
             /\ Step("c", "", h, g, <<>>, [store EXCEPT ![g] = store[h]], <<>>)
          \/ /\ ~Wide /\ store[g].live
             /\ Step("x", "", h, h, <<>>, [store EXCEPT ![h] = [live |-> FALSE, c |-> Empty(K)]], <<>>)
Spec == Init /\ [][Next]_vars
OnlyNamed == [][\A h \in Hs : store'[h] # store[h] => h = last'.g]_vars
SameAsPersistent ==
  [][last'.y \in {"m", "p"} => store'[last'.g].c = Mut(K, last'.f, C(last'.h), last'.a).c]_vars
(* Keys share a hash in part and in full. *)
Digits(k) == IF Wide THEN [i \in 1..11 |-> CASE i = 1 -> k % 3 [] i = 2 -> (k \div 3) % 2 [] OTHER -> 0] ELSE
             [i \in 1..11 |-> IF i = 11 THEN (IF k \in {3, 4} THEN 1 ELSE 0) ELSE
                              IF i = 2 THEN (IF k = 5 THEN 9 ELSE 0) ELSE 0]
ASSUME ~Emit \/ PrintT(ToJson([cfg |->
         IF K \in Unordered
         THEN [degree |-> 64, init |-> Items0, hash |-> SetToSeq({<<k, Digits(k)>> : k \in 0..60})]
         ELSE [bits |-> BitsOrDegree, init |-> Items0]]))
=============================================================================
