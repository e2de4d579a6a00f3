------------------------------ MODULE PeerSetMC -----------------------------
(***************************************************************************)
(* How a node keeps its set of peers: connections shake hands and queue up,*)
(* the keeper decides on one at a time with the rules of PeerSet; what the *)
(* connections hear (an address, a question) and their ends reach it over  *)
(* separate queues, in no fixed order between them.                        *)
(* Refuted with Guarded = FALSE (an address kept for somebody who closed). *)
(***************************************************************************)
EXTENDS PeerSet, SequencesExt
CONSTANTS Conns, Ids, Self, MaxPeers, Addrs, PerConn, Guarded
VARIABLES st,      \* the keeper's PeerSet state
          conn,    \* connection -> [id, at]: fresh, queued, kept, refused, cancelled, ended
          newQ, annQ, cloQ, askQ, \* the four queues
          told,    \* connection -> what it was told: refusals and answers
          said     \* connection -> announcements and questions so far
vars == <<st, conn, newQ, annQ, cloQ, askQ, told, said>>
P == [self |-> Self, max |-> MaxPeers]

Init == /\ st = None
        /\ conn = [c \in Conns |-> [id |-> "?", at |-> "fresh"]]
        /\ newQ = <<>> /\ annQ = <<>> /\ cloQ = <<>> /\ askQ = <<>>
        /\ told = [c \in Conns |-> <<>>]
        /\ said = [c \in Conns |-> 0]

Arrive(c) == /\ conn[c].at = "fresh"
             /\ \E id \in Ids \cup {Self} :
                  IF id = Self
                  THEN /\ conn' = [conn EXCEPT ![c] = [id |-> id, at |-> "cancelled"]]
                       /\ UNCHANGED newQ
                  ELSE /\ conn' = [conn EXCEPT ![c] = [id |-> id, at |-> "queued"]]
                       /\ newQ' = Append(newQ, c)
             /\ UNCHANGED <<st, annQ, cloQ, askQ, told, said>>
Decide == /\ newQ # <<>>
          /\ LET c == Head(newQ)
                 v == Verdict(P, st, conn[c].id)
             IN /\ st' = Connect(P, st, conn[c].id)
                /\ conn' = [conn EXCEPT ![c].at = IF v = "accepted" THEN "kept" ELSE "refused"]
                /\ told' = IF v = "accepted" THEN told ELSE [told EXCEPT ![c] = Append(@, Alternatives(st))]
          /\ newQ' = Tail(newQ)
          /\ UNCHANGED <<annQ, cloQ, askQ, said>>
Say(c) == /\ conn[c].at = "kept" /\ said[c] < PerConn
          /\ said' = [said EXCEPT ![c] = @ + 1]
          /\ \/ \E a \in Addrs : annQ' = Append(annQ, <<conn[c].id, a>>) /\ UNCHANGED askQ
             \/ askQ' = Append(askQ, c) /\ UNCHANGED annQ
          /\ UNCHANGED <<st, conn, newQ, cloQ, told>>
End(c) == /\ conn[c].at = "kept"
          /\ conn' = [conn EXCEPT ![c].at = "ended"]
          /\ cloQ' = Append(cloQ, conn[c].id)
          /\ UNCHANGED <<st, newQ, annQ, askQ, told, said>>
HearAnnounce == /\ annQ # <<>>
                /\ annQ' = Tail(annQ)
                /\ st' = IF Guarded THEN Announce(st, annQ[1][1], annQ[1][2])
                         ELSE [st EXCEPT !.addr = (annQ[1][1] :> annQ[1][2]) @@ @]
                /\ UNCHANGED <<conn, newQ, cloQ, askQ, told, said>>
HearEnd == /\ cloQ # <<>>
           /\ cloQ' = Tail(cloQ)
           /\ st' = Leave(st, Head(cloQ))
           /\ UNCHANGED <<conn, newQ, annQ, askQ, told, said>>
HearQuestion == /\ askQ # <<>>
                /\ askQ' = Tail(askQ)
                /\ told' = IF conn[Head(askQ)].at = "kept" THEN [told EXCEPT ![Head(askQ)] = Append(@, Asked(st))] ELSE told
                /\ UNCHANGED <<st, conn, newQ, annQ, cloQ, said>>
Keeper == Decide \/ HearAnnounce \/ HearEnd \/ HearQuestion
Next == (\E c \in Conns : Arrive(c) \/ Say(c) \/ End(c)) \/ Keeper
Spec == Init /\ [][Next]_vars /\ WF_vars(Keeper)

Kept == { c \in Conns : conn[c].at = "kept" }
\* connections whose end the keeper has not heard of still count
Inv == /\ Bounded(P, st) /\ NotItself(P, st) /\ OnlyOfPeers(st)
       /\ Cardinality(Kept) <= MaxPeers
       /\ \A c, d \in Kept : c # d => conn[c].id # conn[d].id
       /\ \A c \in Kept : conn[c].id \in st.known
       /\ \A c \in Conns : conn[c].id = Self => conn[c].at = "cancelled"
\* what is handed out is always of somebody connected (or whose end is unheard)
HandsOutPeers == [][\A c \in Conns : told'[c] # told[c] => DOMAIN Last(told'[c]) \subseteq st.known]_vars
\* a slot is free once the keeper has heard of the end
FreesSlots == (cloQ = <<>>) => st.known = { conn[c].id : c \in Kept }
\* every arrival is decided
Decided == \A c \in Conns : (conn[c].at = "queued") ~> (conn[c].at \in {"kept", "refused", "ended"})
Sym == Permutations(Conns)
=============================================================================
