------------------------------ MODULE NetTrace ------------------------------
(***************************************************************************)
(* Recorded networks of real nodes against Net: what Net promises when a   *)
(* network has come to rest, for blocks and transactions of the Ledger.    *)
(* A step = acts started together; afterwards the network came to rest and *)
(* every node was looked at (obs), and the connections that were up noted. *)
(***************************************************************************)
EXTENDS LedgerTrace

VARIABLES j, k
nvars == <<i, l, s, ph, pm, j, k>>

Sc == Traces[j]
V == [P |-> Sc.P, txs |-> Sc.txs, mks |-> Sc.mks, blks |-> Sc.blks]
Nn == 1..Sc.n
Of(q) == { <<q[x][1], q[x][2]>> : x \in DOMAIN q }
RECURSIVE Near(_, _, _)
\* the nodes that a message of S can reach over links L, through nodes of ok
Near(S, L, ok) ==
  LET T == S \cup { b \in ok : \E a \in S : <<a, b>> \in L \/ <<b, a>> \in L }
  IN IF T = S THEN S ELSE Near(T, L, ok)

Step == Sc.steps[k]
Before == IF k = 1 THEN <<>> ELSE Sc.steps[k - 1].obs
HeadBefore(n) == IF k = 1 THEN Zero ELSE Before[n].head
KnownBefore(n) == IF k = 1 THEN {} ELSE AsSet(Before[n].ktx)
LinksBefore == IF k = 1 THEN {} ELSE Of(Sc.steps[k - 1].links)
Acts == Range(Step.acts)
Cuts == { <<a.n, a.m>> : a \in { x \in Acts : x.a = "cut" } }
LinksNow == Of(Step.links)
\* connections that were up all along
Stayed == { x \in LinksBefore \cap LinksNow : x \notin Cuts /\ <<x[2], x[1]>> \notin Cuts }

\* every chain a node held or was given
WorkHere(n) == { Work(V, HeadBefore(n)) } \cup { Work(V, a.o.head) : a \in { x \in Acts : x.a = "mine" /\ x.n = n } }
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
HeadsAgree(n) ==
  LET C == Near({n}, LinksNow, Nn)
      w == Work(V, Step.obs[n].head)
  IN /\ \A m \in C : Work(V, Step.obs[m].head) = w
     /\ w >= MaxOf(UNION { WorkHere(m) : m \in C })
Submitted == { a \in Acts : a.a = "tx" /\ a.ret = "ok" /\ ~a.knows }
Knowing(t) == { n \in Nn : { V.txs[t].ins[x].tx : x \in DOMAIN V.txs[t].ins } \subseteq KnownBefore(n) }
MustHave(a) == Near({a.n}, Stayed, Knowing(a.t))
StateOf(n) ==
  LET o == Step.obs[n]
  IN [FoldOfChain(V, o.head) EXCEPT !.ktx = AsSet(o.ktx), !.kmk = AsSet(o.kmk), !.kbl = AsSet(o.kbl)]
FreeIn(o, u) == \E key \in DOMAIN o.free : u \in AsSet(o.free[key])
\* who was given the transaction does not spend its inputs again
Spoken(n, t) ==
  LET st == StateOf(n)
  IN (t \notin DOMAIN st.inc /\ Includable(V, st, t)) => \A u \in Consumes(V.txs[t]) : ~FreeIn(Step.obs[n], u)
Dead == \E n \in Nn : Step.obs[n].dead
Bad ==
  IF Dead THEN {"net-dead"}
  ELSE (IF Step.failed # <<>> THEN {"net-failed"} ELSE {})
  \cup (IF Step.dropped # <<>> THEN {"net-dropped"} ELSE {})
  \cup (IF \E n \in Nn : ~HeadsAgree(n) THEN {"net-head"} ELSE {})
  \cup (IF \E a \in Submitted : \E n \in MustHave(a) : a.t \notin AsSet(Step.obs[n].ktx) THEN {"net-tx"} ELSE {})
  \cup (IF \E a \in Submitted : \E n \in MustHave(a) : a.t \in AsSet(Step.obs[n].ktx) /\ ~Spoken(n, a.t) THEN {"net-pending"} ELSE {})
  \cup UNION { ObsKinds(V, StateOf(n), [x \in DOMAIN Step.obs[n] \ {"free", "tmpl"} |-> Step.obs[n][x]]) : n \in Nn }
Largest == MaxOf({ Cardinality(Near({n}, LinksNow, Nn)) : n \in Nn })

NInit == /\ j \in 1..Len(Traces) /\ k = 1
         /\ i = j /\ l = 1 /\ s = <<>> /\ ph = "" /\ pm = <<>>
NNext == /\ k <= Len(Sc.steps)
         /\ k' = k + 1
         /\ LET b == Bad IN
            PrintT(ToJson([k |-> "NET", sc |-> Sc.name, l |-> k, bad |-> b, acts |-> Cardinality(Acts),
                           comp |-> IF Dead THEN 0 ELSE Largest, sub |-> IF Dead THEN 0 ELSE SumOver(LAMBDA a : Cardinality(MustHave(a)) - 1, Submitted),
                           heads |-> Cardinality({ Step.obs[n].head : n \in Nn })]))
         /\ UNCHANGED <<i, l, s, ph, pm, j>>
NSpec == NInit /\ [][NNext]_nvars
=============================================================================
