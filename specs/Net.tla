--------------------------------- MODULE Net ---------------------------------
(***************************************************************************)
(* A network of honest nodes.  Each connection has two ends; an end has a  *)
(* queue of what its node announced (heads and transactions) and the head  *)
(* it last heard of.  A conversation (one command, carried out by both     *)
(* ends) is one step; what it hands to a node's ledger is taken in later.  *)
(* Blocks form a tree, every block has the work of 1; a transaction can be *)
(* kept by a node once the node has the block whose output it spends.      *)
(*                                                                         *)
(* Converged: when nothing is left to do, connected nodes have heads of    *)
(* the same work, no less than any chain that was ever adopted by one of   *)
(* them, and every submitted transaction has reached the nodes connected   *)
(* to where it was submitted (through nodes that could keep it).           *)
(*                                                                         *)
(* Variant: "ok" is what the code does; the others leave something out.    *)
(* With Emit the outside events of a behaviour are printed as a script.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS N, MaxBlks, MaxTxs, MaxCuts, Topo, Variant, Emit, MaxActs
VARIABLES
  par,    \* the tree: par[b] is the parent of block b, 0 the common start
  hd, kn, \* per node: head, known blocks
  kt,     \* per node: known transactions
  cb, ct, \* per node: candidate heads and transactions, not taken in yet
  en,     \* per end <<a, b>> (at a, of the connection with b): <<>> or <<[cur, hq, tq, sub]>>, sub: it hears its node
  dep,    \* per transaction: the block it needs
  must,   \* per transaction: the nodes it has to reach
  cuts, acts, log
vars == <<par, hd, kn, kt, cb, ct, en, dep, must, cuts, acts, log>>

Nodes == 1..N
\* which connections may be opened, and from which side
Pairs == CASE Topo = "line" -> { <<a, a + 1>> : a \in 1..(N - 1) }
           [] Topo = "bent" -> { <<2, b>> : b \in {1, 3} } \cup { <<b, 3>> : b \in 4..N }
           [] Topo = "star" -> { <<a, 1>> : a \in 2..N }
           [] Topo = "ring" -> { <<a, 1 + (a % N)>> : a \in 1..N }
           [] OTHER -> { <<a, b>> \in (1..N) \X (1..N) : a # b }
Ends == { <<a, b>> \in Nodes \X Nodes : a # b }
RECURSIVE Work(_, _)
Work(p, b) == IF b = 0 THEN 0 ELSE 1 + Work(p, p[b])
W(b) == Work(par, b)
RECURSIVE Chain(_, _)
Chain(p, b) == IF b = 0 THEN {0} ELSE {b} \cup Chain(p, p[b])
Up(a, b) == en[<<a, b>>] # <<>>
Linked(e, a, b) == a # b /\ e[<<a, b>>] # <<>> /\ e[<<b, a>>] # <<>> /\ e[<<a, b>>][1].sub /\ e[<<b, a>>][1].sub
RECURSIVE Reach(_, _, _)
Reach(e, S, ok) == LET T == S \cup { b \in ok : \E a \in S : Linked(e, a, b) } IN IF T = S THEN S ELSE Reach(e, T, ok)

\* every end of node n hears x
Tell(e, n, f(_)) == [k \in Ends |-> IF k[1] = n /\ e[k] # <<>> /\ e[k][1].sub THEN <<f(e[k][1])>> ELSE e[k]]
TellHead(e, n, b) == Tell(e, n, LAMBDA x : [x EXCEPT !.hq = Append(@, b)])
TellTx(e, n, t) == Tell(e, n, LAMBDA x : [x EXCEPT !.tq = Append(@, t)])

Quiet == /\ \A n \in Nodes : cb[n] = <<>> /\ ct[n] = <<>>
         /\ \A k \in Ends : en[k] # <<>> => en[k][1].hq = <<>> /\ en[k][1].tq = <<>> /\ Linked(en, k[1], k[2])
Note(a) == /\ acts < MaxActs
           /\ acts' = acts + 1
           /\ log' = IF Emit THEN Append(log, a @@ [quiet |-> Quiet]) ELSE log

Init == /\ par = <<>> /\ hd = [n \in Nodes |-> 0] /\ kn = [n \in Nodes |-> {0}] /\ kt = [n \in Nodes |-> {}]
        /\ cb = [n \in Nodes |-> <<>>] /\ ct = [n \in Nodes |-> <<>>]
        /\ en = [k \in Ends |-> <<>>] /\ dep = <<>> /\ must = <<>> /\ cuts = 0 /\ acts = 0 /\ log = <<>>

\* ---------------------------------------------------------- outside events
\* a node finds a block on any block it knows that is heavy enough
Mine(n) == /\ Len(par) < MaxBlks
           /\ \E b \in kn[n] :
                /\ 1 + W(b) > W(hd[n])
                /\ par' = Append(par, b)
                /\ LET x == Len(par) + 1 IN
                   /\ hd' = [hd EXCEPT ![n] = x]
                   /\ kn' = [kn EXCEPT ![n] = @ \cup {x}]
                   /\ en' = TellHead(en, n, x)
                   /\ Note([a |-> "mine", n |-> n, m |-> 0, b |-> b])
           /\ UNCHANGED <<kt, cb, ct, dep, must, cuts>>
\* a opens a connection to b
Link(a, b) ==
  /\ ~Up(a, b) /\ ~Up(b, a)
  /\ en' = [en EXCEPT ![<<a, b>>] = <<[cur |-> hd[a], hq |-> IF Variant = "no-first-sync" THEN <<>> ELSE <<hd[a]>>, tq |-> <<>>, sub |-> TRUE]>>]
  /\ Note([a |-> "link", n |-> a, m |-> b, b |-> 0])
  /\ UNCHANGED <<par, hd, kn, kt, cb, ct, dep, must, cuts>>
Cut(a, b) ==
  /\ cuts < MaxCuts /\ Linked(en, a, b)
  /\ en' = [en EXCEPT ![<<a, b>>] = <<>>, ![<<b, a>>] = <<>>]
  /\ cuts' = cuts + 1
  /\ must' = [t \in DOMAIN must |-> {}]
  /\ Note([a |-> "cut", n |-> a, m |-> b, b |-> 0])
  /\ UNCHANGED <<par, hd, kn, kt, cb, ct, dep>>
\* a transaction that spends an output of the block that is the head of node n
Submit(n) ==
  /\ Len(dep) < MaxTxs
  /\ LET t == Len(dep) + 1 IN
     /\ dep' = Append(dep, hd[n])
     /\ kt' = [kt EXCEPT ![n] = @ \cup {t}]
     /\ en' = TellTx(en, n, t)
     /\ must' = Append(must, Reach(en, {n}, { m \in Nodes : hd[n] \in kn[m] }))
     /\ Note([a |-> "tx", n |-> n, m |-> 0, b |-> hd[n]])
  /\ UNCHANGED <<par, hd, kn, cb, ct, cuts>>

\* ---------------------------------------------------------- inside
\* the other end of a connection comes up
Accept(a, b) ==
  /\ Up(a, b) /\ ~Up(b, a)
  /\ en' = [en EXCEPT ![<<b, a>>] = <<[cur |-> hd[b], hq |-> <<>>, tq |-> <<>>, sub |-> Variant # "head-first"]>>]
  /\ UNCHANGED <<par, hd, kn, kt, cb, ct, dep, must, cuts, acts, log>>
Listen(a, b) ==
  /\ Up(a, b) /\ ~en[<<a, b>>][1].sub
  /\ en' = [en EXCEPT ![<<a, b>>][1].sub = TRUE]
  /\ UNCHANGED <<par, hd, kn, kt, cb, ct, dep, must, cuts, acts, log>>
\* one command about the head first heard of at a, carried out with b
Sync(a, b) ==
  /\ Linked(en, a, b) /\ en[<<a, b>>][1].hq # <<>>
  /\ LET x == en[<<a, b>>][1]
         h == IF Variant = "old-head" THEN x.cur ELSE x.hq[1]
         o == en[<<b, a>>][1].cur
         s == [e \in {a, b} |-> IF e = a THEN h ELSE o]
         Gets(e, f) == W(s[e]) < W(s[f]) /\ s[f] \notin kn[e]
         add(n) == IF n = a /\ Gets(a, b) THEN Append(cb[n], [b |-> s[b], own |-> FALSE])
                   ELSE IF n = b /\ Gets(b, a) THEN Append(cb[n], [b |-> s[a], own |-> FALSE]) ELSE cb[n]
     IN /\ en' = [en EXCEPT ![<<a, b>>] = <<[x EXCEPT !.hq = Tail(@), !.cur = h]>>]
        /\ cb' = [n \in Nodes |-> add(n)]
  /\ UNCHANGED <<par, hd, kn, kt, ct, dep, must, cuts, acts, log>>
TakeHead(n) ==
  /\ cb[n] # <<>>
  /\ LET b == cb[n][1].b IN
     /\ cb' = [cb EXCEPT ![n] = Tail(@)]
     /\ kn' = [kn EXCEPT ![n] = @ \cup Chain(par, b)]
     /\ IF W(b) > W(hd[n])
        THEN /\ hd' = [hd EXCEPT ![n] = b]
             /\ en' = IF Variant = "no-relay" THEN en ELSE TellHead(en, n, b)
        ELSE UNCHANGED <<hd, en>>
  /\ UNCHANGED <<par, kt, ct, dep, must, cuts, acts, log>>
Gossip(a, b) ==
  /\ Linked(en, a, b) /\ en[<<a, b>>][1].tq # <<>>
  /\ LET x == en[<<a, b>>][1]
         t == x.tq[1]
     IN /\ en' = [en EXCEPT ![<<a, b>>] = <<[x EXCEPT !.tq = Tail(@)]>>]
        /\ ct' = IF t \in kt[b] THEN ct ELSE [ct EXCEPT ![b] = Append(@, t)]
  /\ UNCHANGED <<par, hd, kn, kt, cb, dep, must, cuts, acts, log>>
TakeTx(n) ==
  /\ ct[n] # <<>>
  /\ LET t == ct[n][1] IN
     /\ ct' = [ct EXCEPT ![n] = Tail(@)]
     /\ IF t \notin kt[n] /\ dep[t] \in kn[n]
        THEN /\ kt' = [kt EXCEPT ![n] = @ \cup {t}]
             /\ en' = IF Variant = "no-tx-relay" THEN en ELSE TellTx(en, n, t)
        ELSE UNCHANGED <<kt, en>>
  /\ UNCHANGED <<par, hd, kn, cb, dep, must, cuts, acts, log>>

Outside == \/ \E n \in Nodes : Mine(n) \/ Submit(n)
           \/ \E k \in Ends : (<<k[1], k[2]>> \in Pairs /\ Link(k[1], k[2])) \/ Cut(k[1], k[2])
Inside == \/ \E k \in Ends : Accept(k[1], k[2]) \/ Listen(k[1], k[2]) \/ Sync(k[1], k[2]) \/ Gossip(k[1], k[2])
          \/ \E n \in Nodes : TakeHead(n) \/ TakeTx(n)
Next == Outside \/ Inside
Spec == Init /\ [][Next]_vars /\ WF_vars(Inside)

\* ---------------------------------------------------------- properties
Converged == Quiet => /\ \A a, b \in Nodes : Linked(en, a, b) => W(hd[a]) = W(hd[b])
                      /\ \A t \in DOMAIN dep : \A n \in must[t] : t \in kt[n]
HeadKnown == \A n \in Nodes : hd[n] \in kn[n] /\ \A b \in kn[n] : Chain(par, b) \subseteq kn[n]
OnlyHeavier == [][\A n \in Nodes : hd'[n] # hd[n] => Work(par', hd'[n]) > W(hd[n])]_vars
\* once nothing happens outside, everything comes to rest
Rests == <>[]Quiet
PrintIt == Emit /\ acts = MaxActs /\ Quiet => PrintT(ToJson([k |-> "SCRIPT", s |-> log]))
=============================================================================
