------------------------------ MODULE RunCheck ------------------------------
(* Do runs do what RpdsOps does?  All short sequences of small steps. *)
EXTENDS RunOps
CONSTANTS K, MaxLen, MaxSteps, Sizes

VARIABLES c, r, t
vars == <<c, r, t>>

E1(x) == x * Tag
Elems == {E1(1), E1(4)}
Steps ==
  LET all(f, s, xs, dxs, ys, dys) ==
        {[f |-> f, s |-> s, n |-> n, x |-> x, dx |-> dx, y |-> y, dy |-> dy] :
           n \in Sizes, x \in xs, dx \in dxs, y \in ys, dy \in dys}
      el(f) == all(f, "m", Elems, {0, Tag, -Tag}, {0}, {0})
      no(f) == all(f, "m", {0}, {0}, {0}, {0})
      idx(f) == all(f, "m", 0..3, {1}, Elems, {0, Tag})
      kv(f) == all(f, "m", {E1(i) + 1 : i \in 1..4}, {Tag}, {E1(7), E1(9)}, {0, Tag})
  IN CASE K = "list" -> el("push_front") \union no("drop_first") \union no("reverse")
       [] K = "stack" -> el("push") \union no("pop")
       [] K = "queue" -> el("enqueue") \union no("dequeue") \union el("churn")
       [] K = "vector" -> el("push_back") \union el("extend") \union no("drop_last") \union idx("set")
                          \union idx("get_mut") \union idx("index_mut")
       [] K \in MapKinds -> kv("insert") \union kv("remove") \union kv("get_mut")
       [] K \in SetKinds -> kv("insert") \union kv("remove")

Arg(k, o, i) ==
  IF o.f \in {"set", "get_mut", "index_mut"} \/ (o.f = "insert" /\ K \in MapKinds)
  THEN <<o.x + i * o.dx, o.y + i * o.dy>>
  ELSE IF o.f \in {"reverse", "drop_first", "drop_last", "pop", "dequeue"} THEN <<>>
  ELSE <<o.x + i * o.dx>>
Call(m, f, a) ==
  LET x == Mut(K, f, m.c, a) IN
  [c |-> x.c, ok |-> m.ok + Bit(x.ok), old |-> m.old \o x.old]
Calls(o, d) ==
  FoldLeft(LAMBDA m, i : IF o.f = "churn" THEN Call([Call(m, "enqueue", Arg(K, o, i)) EXCEPT !.ok = m.ok],
                                                    "dequeue", <<>>)
                         ELSE Call(m, o.f, Arg(K, o, i)),
           [c |-> d, ok |-> 0, old |-> <<>>], [j \in 1..o.n |-> j - 1])

Init == c = Empty(K) /\ r = <<>> /\ t = 0
Next == /\ t < MaxSteps
        /\ t' = t + 1
        /\ \E o \in Steps :
             LET m == Calls(o, c)
                 q == RunStep(K, r, o)
             IN /\ Size(K, m.c) <= MaxLen
                /\ c' = m.c
                /\ r' = q.c
                /\ Assert(o.f \in Infallible \/ q.ok = m.ok, <<"ok", o, r, q, m>>)
                /\ Assert(o.f \notin {"get_mut", "index_mut"}
                          \/ m.old = Expand("vector", q.old), <<"old", o, r, q, m>>)
Spec == Init /\ [][Next]_vars

Ordered == IF K \in Unordered THEN SelectSeq(<<"tmap", "tset">>, LAMBDA k : (k = "tmap") = (K = "hmap"))[1] ELSE K
Seq1 == Items(Ordered, c)
RSeq == [i \in 1..Len(Seq1) |-> IF K \in MapKinds THEN Seq1[i] ELSE <<Seq1[i], 0>>]
Same == Expand(K, r) = c /\ ExpandItems(r) = RSeq
QueriesOK ==
  /\ \A f \in (CASE K = "list" -> {"len", "is_empty", "first", "last"}
                 [] K = "stack" -> {"size", "is_empty", "peek"}
                 [] K = "queue" -> {"len", "is_empty", "peek"}
                 [] K = "vector" -> {"len", "is_empty", "first", "last"}
                 [] K \in {"tmap", "tset"} -> {"size", "is_empty", "first", "last"}
                 [] OTHER -> {"size", "is_empty"}) :
       RunQuery(K, f, r, 0) = Query(K, f, c, <<>>)
  /\ K = "vector" => \A f \in {"get", "index"} : \A i \in 0..MaxLen : RunQuery(K, f, r, i) = Query(K, f, c, <<i>>)
  /\ K \in MapKinds => \A f \in {"get", "index", "get_key_value", "contains_key"} : \A i \in 0..9 :
       RunQuery(K, f, r, E1(i)) = Query(K, f, c, <<E1(i)>>)
  /\ K \in SetKinds => \A f \in {"get", "contains"} : \A i \in 0..9 :
       RunQuery(K, f, r, E1(i)) = Query(K, f, c, <<E1(i)>>)
IterOK ==
  \A code \in {0, 1, 2, 3, 4, 6, 9, 10, 11, 12, 13, 16, 17} : \A n \in {0, 2} :
    LET m == RunIter(r, code, n) IN
    /\ ExpandItems(m.left) = StepLeft(RSeq, code, n)
    /\ ExpandItems(m.out) = IF code = 10 THEN << <<Len(RSeq), 0>> >> ELSE StepYield(RSeq, code, n)
RangesOK ==
  K \in {"tmap", "tset"} =>
    \A lo \in {<<0, 0>>, <<1, E1(2)>>, <<2, E1(3)>>} : \A hi \in {<<0, 0>>, <<1, E1(4)>>, <<2, E1(5)>>} :
      Expand("vector", RunRange(r, lo, hi))
        = LET s == RangeItems(K, c, lo, hi) IN [i \in 1..Len(s) |-> IF K = "tmap" THEN s[i][1] ELSE s[i]]
\* The order that contents have: of the contents with themselves less the first, the last or some item.
OrderOK ==
  LET s == ExpandItems(r) IN
  \A d \in {r, RDrop(r, 1), RDropEnd(r, Min2(1, RLen(r))), RTake(r, 1) \o RDrop(r, 2)} :
    /\ RSame(r, d) = (ExpandItems(r) = ExpandItems(d))
    /\ LET e == ExpandItems(d)
           flat(q) == [i \in 1..(2 * Len(q)) |-> q[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]]
       IN RunCmp(r, d) = SeqCmp(flat(s), flat(e))
    /\ K \in SetKinds \union MapKinds =>
         RunRelations(r, d) = Relations(Expand(K, r), Expand(K, d))
Inv == Same /\ QueriesOK /\ IterOK /\ RangesOK /\ OrderOK
=============================================================================
