----------------------------- MODULE QueueImpl -----------------------------
(***************************************************************************)
(* Queue: elements enter at the front of one list and leave at the front   *)
(* of another, which is refilled by reversing the first when it runs out.  *)
(* Checked: every operation refines the abstract queue; the front and the  *)
(* iteration (the second list, then the first reversed) are those of the   *)
(* abstract queue.  Every transition is printed for the real code.         *)
(***************************************************************************)
EXTENDS RpdsOps, Json
CONSTANTS Values, MaxLen, InitLen, Emit
VARIABLES in, out, last
vars == <<in, out, last>>

Abs(i, o) == o \o Reverse(i)
Str(i, o) == ToString(<<i, o>>)
Do(f, a, i2, o2) ==
  /\ in' = i2
  /\ out' = o2
  /\ last' = [f |-> f, a |-> a]
  /\ ~Emit \/ PrintT(ToJson([s |-> Str(in, out), f |-> f, a |-> a,
                             r |-> Ret(f, "m", Mut("queue", f, Abs(in, out), a)),
                             d |-> Str(i2, o2), c |-> Abs(i2, o2)]))
Items0 == [i \in 1..InitLen |-> i * Tag]
(* Collecting makes a queue whose elements are all on the way out. *)
Init == in = <<>> /\ out = Items0 /\ last = [f |-> "new", a |-> <<>>]
Next ==
  \/ \E v \in Values : /\ Len(in) + Len(out) < MaxLen
                       /\ Do("enqueue", <<v * Tag>>, <<v * Tag>> \o in, out)
  \/ IF out # <<>> THEN Do("dequeue", <<>>, in, Tail(out))
     ELSE IF in # <<>> THEN Do("dequeue", <<>>, <<>>, Tail(Reverse(in)))
     ELSE Do("dequeue", <<>>, in, out)
Spec == Init /\ [][Next]_vars
View == <<in, out>>

Peek == IF out # <<>> THEN <<1, Head(out)>> ELSE IF in # <<>> THEN <<1, in[Len(in)]>> ELSE <<0>>
Inv == Peek = Query("queue", "peek", Abs(in, out), <<>>)
Refines == [][Abs(in', out') = Mut("queue", last'.f, Abs(in, out), last'.a).c]_vars
EmitState ==
  ~Emit \/ PrintT(ToJson([st |-> Str(in, out), c |-> Abs(in, out),
                          q |-> SetToSeq({[f |-> f, a |-> <<>>, r |-> Query("queue", f, Abs(in, out), <<>>)] :
                                           f \in {"peek", "len", "is_empty"}})]))
ASSUME ~Emit \/ PrintT(ToJson([cfg |-> [init |-> Items0]]))
=============================================================================
