---------------------------- MODULE PeerSetTrace ----------------------------
(***************************************************************************)
(* Validation of the behaviour of a real node towards scripted peers       *)
(* against PeerSet.  The operations of one step ran at the same time: some *)
(* order of them must explain everything that was seen.                    *)
(***************************************************************************)
EXTENDS PeerSet, Json, IOUtils, FiniteSetsExt, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, S     \* scenario, next step, the states it may be in
vars == <<i, l, S>>

T == Traces[i]
P == [self |-> T.self, max |-> T.max]
MapOf(q) == FoldLeft(LAMBDA f, p : (p[1] :> p[2]) @@ f, <<>>, q)

\* the states after operation a in state st, if st explains what was seen
Explains(st, a) ==
  CASE a.res = "nobody" -> {st}
    [] a.a \in {"connect", "dial"} ->
         IF a.res # Verdict(P, st, a.id) THEN {}
         ELSE IF a.res = "refused" /\ MapOf(a.got) # Alternatives(st) THEN {}
         ELSE {Connect(P, st, a.id)}
    [] a.a \in {"announce", "straggle"} -> {Announce(st, a.id, a.s)}
    [] a.a = "ask" -> IF MapOf(a.got) = Asked(st) THEN {st} ELSE {}
    [] a.a = "leave" -> {Leave(st, a.id)}
    [] OTHER -> {st}
\* (a peer that announces its address as it leaves does two things)
Acts(e) == { [j |-> 200 + j, x |-> [e.acts[j] EXCEPT !.a = "announce"]] :
             j \in { k \in DOMAIN e.acts : e.acts[k].a = "leave" /\ e.acts[k].how = "announce" } } \cup
           { [j |-> j, x |-> e.acts[j]] : j \in DOMAIN e.acts } \cup { [j |-> 100 + j, x |-> e.dials[j]] : j \in DOMAIN e.dials }
\* operations that change nothing in any state; those explained now may as well have happened now
Still(a) == a.res = "nobody" \/ (a.a \in {"connect", "dial"} /\ a.res # "accepted") \/ a.a \notin {"connect", "dial", "announce", "straggle", "leave"}
Shed(c) == [c EXCEPT !.A = { a \in @ : ~(Still(a.x) /\ Explains(c.st, a.x) # {}) }]
\* the states reachable from the states of C by all that each has left to do, in some order
RECURSIVE Run(_)
Run(C) ==
  LET D == { Shed(c) : c \in C }
      go == { c \in D : c.A # {} }
      on == UNION { UNION { { [st |-> t, A |-> c.A \ {a}] : t \in Explains(c.st, a.x) } : a \in { b \in c.A : ~Still(b.x) } } : c \in go }
  IN { c.st : c \in D \ go } \cup (IF on = {} THEN {} ELSE Run(on))

Odd(a) == a.a \in {"announce", "ask", "leave", "tell"} /\ a.res \notin {"ok", "nobody"}
\* an address told by a peer, of somebody unknown whom the node has room for, is tried
TellsOf(e) == { k \in DOMAIN e.acts : e.acts[k].a = "tell" /\ e.acts[k].res = "ok" }
ToldAs(e, id) == { <<j, k>> \in TellsOf(e) \X (1..8) : k \in DOMAIN e.acts[j].m /\ e.acts[j].m[k][1] = id }
Told(e) == UNION { { e.acts[j].m[k] : k \in DOMAIN e.acts[j].m } : j \in TellsOf(e) }
\* (everybody who might have been known at some point of the step)
Near(e, N) == UNION { st.known : st \in S \cup N }
              \cup { e.acts[j].id : j \in { k \in DOMAIN e.acts : e.acts[k].a = "connect" } }
              \cup { e.dials[j].id : j \in DOMAIN e.dials }
Untried(e, N) ==
  \E p \in Told(e) :
    /\ p[2] \in DOMAIN T.hosts /\ T.hosts[p[2]].mode = "ok"
    /\ p[1] # P.self
    /\ p[1] \notin Near(e, N)
    /\ Cardinality(ToldAs(e, p[1])) = 1
    /\ Cardinality(Near(e, N)) < P.max
    /\ \A j \in DOMAIN e.dials : e.dials[j].s # p[2]
Kinds(e, N) ==
  LET all == { e.acts[j] : j \in DOMAIN e.acts } \cup { e.dials[j] : j \in DOMAIN e.dials }
  IN { "ps:" \o a.res : a \in { b \in all : b.a \in {"connect", "dial"} /\ b.res \notin {"accepted", "refused", "cancelled"} } }
     \cup { "ps-" \o a.a \o ":" \o a.res : a \in { b \in all : Odd(b) } }
     \cup (IF \E a \in all : a.a \in {"connect", "dial"} /\ a.res \in {"refused", "cancelled"} /\ ~a.closed THEN {"ps-open"} ELSE {})
     \cup (IF N = {} THEN {"ps-unexplained"}
           ELSE (IF \A st \in N : Cardinality(st.known) # e.size THEN {"ps-lost"} ELSE {})
                \cup (IF Untried(e, N) THEN {"ps-untried"} ELSE {})
                \cup (IF e.seek > 0 /\ \A st \in N : Cardinality(st.known) < e.seek THEN {"ps-unsought"} ELSE {}))
     \cup (IF e.own # "own" THEN {"ps-own"} ELSE {})

Init == /\ i \in 1..Len(Traces)
        /\ l = 1
        /\ S = {None}
Next == /\ l <= Len(T.steps)
        /\ LET e == T.steps[l]
               N == Run({ [st |-> st, A |-> Acts(e)] : st \in S })
               k == Kinds(e, N) \cup (IF T.bad # "" THEN {"ps-bad:" \o T.bad} ELSE {})
           IN /\ PrintT(ToJson([k |-> "STEP", sc |-> T.name, l |-> l, bad |-> k, n |-> Cardinality(N),
                                op |-> [j \in DOMAIN e.acts |-> e.acts[j].a \o ":" \o e.acts[j].res],
                                dials |-> [j \in DOMAIN e.dials |-> e.dials[j].res]]))
              /\ l' = IF k # {} THEN Len(T.steps) + 1 ELSE l + 1
              /\ S' = N
              /\ i' = i
Spec == Init /\ [][Next]_vars
Inv == \A st \in S : Bounded(P, st) /\ NotItself(P, st) /\ OnlyOfPeers(st)
=============================================================================
