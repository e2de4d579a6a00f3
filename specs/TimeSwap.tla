------------------------------ MODULE TimeSwap ------------------------------
(* What a block's id not covering its mined time means for nodes that get   *)
(* blocks from each other.  An honest chain is relayed to two nodes, one of  *)
(* them through a peer that may give each block another time.  A block is    *)
(* taken if its id is the one asked for and its time is above the median of  *)
(* the times stored for the blocks before it.  With Covered, the id is a     *)
(* function of the whole block; without, of all but the time, as in          *)
(* Block.Hash.  The nodes have to agree on the chain in the end (C15, C16).  *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Covered, N, T

VARIABLES chain,    \* the times of the honest blocks
          stored    \* per node, the times of the blocks it took
vars == <<chain, stored>>

Nodes == {1, 2}
Last5(s) == SubSeq(s, IF Len(s) > 5 THEN Len(s) - 4 ELSE 1, Len(s))
Med(s) ==   \* the lower median stands for the median
  LET q == Last5(s)
      below(x) == Cardinality({i \in DOMAIN q : q[i] <= x})
  IN IF q = <<>> THEN -1
     ELSE CHOOSE x \in {q[i] : i \in DOMAIN q} :
            /\ 2 * below(x) >= Len(q)
            /\ \A y \in {q[i] : i \in DOMAIN q} : 2 * below(y) >= Len(q) => y >= x

Id(n, t) == IF Covered THEN <<n, t>> ELSE <<n>>

Init == chain = <<>> /\ stored = [n \in Nodes |-> <<>>]

Mine == /\ Len(chain) < N
        /\ \E t \in 0..T : t > Med(chain) /\ chain' = Append(chain, t)
        /\ UNCHANGED stored

Take(n, t) ==
  LET i == Len(stored[n]) + 1 IN
  /\ i <= Len(chain)
  /\ Id(i, t) = Id(i, chain[i])
  /\ t > Med(stored[n])
  /\ stored' = [stored EXCEPT ![n] = Append(@, t)]
  /\ UNCHANGED chain

Relay == Len(stored[1]) < Len(chain) /\ Take(1, chain[Len(stored[1]) + 1])
Swap == \E t \in 0..T : Take(2, t)

Next == Mine \/ Relay \/ Swap
Spec == Init /\ [][Next]_vars

\* whatever was relayed, the honest continuation can be taken
Agree == \A n \in Nodes : Len(stored[n]) < Len(chain) => chain[Len(stored[n]) + 1] > Med(stored[n])
=============================================================================
