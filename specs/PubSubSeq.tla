------------------------------ MODULE PubSubSeq ------------------------------
(***************************************************************************)
(* The topics used by one caller at a time: what every call must answer.   *)
(* A coarsening of PubSub (each publication, pop and close one step); its  *)
(* simulated behaviours, with the answers, are replayed on the real code.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Steps, Emit, Sizes
VARIABLES subs,   \* sequence of [kind, open, q]
          next,   \* number of the next message
          log, gcs
vars == <<subs, next, log, gcs>>

Init == subs = <<>> /\ next = 1 /\ log = <<>> /\ gcs = 0

Rec(op, s, arg, ans) == [op |-> op, s |-> s, arg |-> arg, ans |-> ans]
Room == Len(log) < Steps

DoSub == /\ Room /\ Len(subs) < 5
         /\ \E k \in {"plain", "chan"} :
              /\ subs' = Append(subs, [kind |-> k, open |-> TRUE, q |-> <<>>])
              /\ log' = Append(log, Rec("sub", Len(subs) + 1, IF k = "chan" THEN 1 ELSE 0, <<>>))
         /\ UNCHANGED <<next, gcs>>
DoPub == /\ Room /\ \E m \in Sizes :
              LET ms == [j \in 1..m |-> next + j - 1] IN
              /\ subs' = [i \in DOMAIN subs |-> IF subs[i].open THEN [subs[i] EXCEPT !.q = @ \o ms] ELSE subs[i]]
              /\ next' = next + m
              /\ log' = Append(log, Rec("pub", 0, m, <<next>>))
         /\ UNCHANGED gcs
\* take up to m messages
DoPop == /\ Room /\ \E i \in DOMAIN subs, m \in {1, 1, 2, 5, 3000} :
              LET x == subs[i]
                  k == IF ~x.open THEN 0 ELSE IF m < Len(x.q) THEN m ELSE Len(x.q)
              IN /\ (~x.open => m = 1 /\ x.kind = "plain")
                 /\ subs' = [subs EXCEPT ![i].q = SubSeq(@, k + 1, Len(@))]
                 /\ log' = Append(log, Rec("pop", i, m, SubSeq(x.q, 1, k)))
         /\ UNCHANGED <<next, gcs>>
DoPeek == /\ Room /\ \E i \in DOMAIN subs :
              /\ subs[i].kind = "plain"
              /\ log' = Append(log, Rec("peek", i, Len(subs[i].q), IF subs[i].q = <<>> THEN <<>> ELSE <<Head(subs[i].q)>>))
          /\ UNCHANGED <<subs, next, gcs>>
DoClose == /\ Room /\ \E i \in DOMAIN subs :
              /\ subs[i].open
              /\ subs' = [subs EXCEPT ![i].open = FALSE, ![i].q = <<>>]
              /\ log' = Append(log, Rec("close", i, 0, <<>>))
           /\ UNCHANGED <<next, gcs>>
\* let the collector run
DoGc == /\ Room /\ gcs = 0 /\ Len(log) > 4
        /\ gcs' = 1
        /\ log' = Append(log, Rec("gc", 0, 0, <<>>))
        /\ UNCHANGED <<subs, next>>
Next == DoSub \/ DoPub \/ DoPop \/ DoPeek \/ DoClose \/ DoGc
Spec == Init /\ [][Next]_vars

\* messages of a queue are consecutive: nothing lost, repeated or reordered
Consecutive == \A i \in DOMAIN subs : \A j \in 1..(Len(subs[i].q) - 1) : subs[i].q[j + 1] = subs[i].q[j] + 1
PrintIt == (Emit /\ Len(log) = Steps) => PrintT(ToJson([k |-> "SCRIPT", s |-> log]))
=============================================================================
