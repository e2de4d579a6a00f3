------------------------------ MODULE PeerSet ------------------------------
(***************************************************************************)
(* The set of peers a node keeps, as a user of the network sees it.        *)
(* A state is [known, addr]: the identities of the connections the node    *)
(* keeps and the addresses some of them announced.                         *)
(* P = [self, max]: the node's own identity and the most peers it keeps.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

None == [known |-> {}, addr |-> <<>>]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

\* a connection whose other end says it is id
Verdict(P, st, id) ==
  IF id = P.self THEN "cancelled"
  ELSE IF id \in st.known \/ Cardinality(st.known) >= P.max THEN "refused"
  ELSE "accepted"
Connect(P, st, id) == IF Verdict(P, st, id) = "accepted" THEN [st EXCEPT !.known = @ \cup {id}] ELSE st
\* what a refused connection is told
Alternatives(st) == st.addr
Announce(st, id, a) == IF id \in st.known THEN [st EXCEPT !.addr = (id :> a) @@ @] ELSE st
Leave(st, id) == [known |-> st.known \ {id}, addr |-> Drop(st.addr, id)]
Asked(st) == st.addr

Bounded(P, st) == Cardinality(st.known) <= P.max
NotItself(P, st) == P.self \notin st.known
OnlyOfPeers(st) == DOMAIN st.addr \subseteq st.known
=============================================================================
