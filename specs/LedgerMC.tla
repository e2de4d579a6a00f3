------------------------------- MODULE LedgerMC -------------------------------
(***************************************************************************)
(* One node in an adversarial environment, small enough to enumerate.      *)
(* The environment invents transactions and blocks (valid ones, and ones   *)
(* with one of the listed defects), submits and offers them in any order,  *)
(* completely or with something missing, and restarts the node.            *)
(*                                                                         *)
(* The same module generates behaviours for replay on the real code        *)
(* (TLC -simulate, Emit = TRUE): `log` is the script so far.              *)
(***************************************************************************)
EXTENDS Ledger, Json, Functions

CONSTANTS MaxTxs,     \* non-coinbase transactions the environment invents
          MaxBlks,    \* blocks it invents
          MaxSteps,   \* things it does to the node
          MaxBad,     \* defects in one behaviour
          Defects,    \* subset of the defect names below
          WithRestart,
          Fill,         \* the node moves only when all blocks are invented
          Emit       \* print the script when MaxSteps is reached
VARIABLES U, s, log, bad, last
vars == <<U, s, log, bad, last>>

Params == [reward |-> 8, dp |-> 4, btt |-> 10, maxBlk |-> 100000, maxTx |-> 100000,
           maxT |-> [q |-> <<16383>> \o [j \in 1..15 |-> 65535], w |-> 4],
           origT |-> [q |-> <<8192>> \o [j \in 1..15 |-> 0], w |-> 7]]
Now == 200000
KeysMC == {"k1", "k2"}
NewId(p, f) == p \o ToString(Cardinality(DOMAIN f) + 1)

\* content-addressed: the same content is the same entity
AddTx(u, x) ==
  LET same == { t \in DOMAIN u.txs : u.txs[t] = x /\ x.ins = <<>> } IN
  IF same # {} THEN [u |-> u, id |-> CHOOSE t \in same : TRUE]
  ELSE LET id == NewId("t", u.txs) IN [u |-> [u EXCEPT !.txs = @ @@ (id :> x)], id |-> id]
AddMk(u, l, r) ==
  LET x == [l |-> l, r |-> r]
      same == { m \in DOMAIN u.mks : u.mks[m] = x } IN
  IF same # {} THEN [u |-> u, id |-> CHOOSE t \in same : TRUE]
  ELSE LET id == NewId("m", u.mks) IN [u |-> [u EXCEPT !.mks = @ @@ (id :> x)], id |-> id]

\* a tree over the ids q (at least one)
RECURSIVE Layer(_, _, _, _)
Layer(u, q, out, odd) ==       \* pairs of q
  IF q = <<>> THEN [u |-> u, q |-> out]
  ELSE LET r == IF Len(q) = 1 THEN Head(q) ELSE q[2]
           a == AddMk(u, Head(q), r)
       IN Layer(a.u, IF Len(q) = 1 THEN <<>> ELSE Tail(Tail(q)), Append(out, a.id), odd)
RECURSIVE Tree(_, _)
Tree(u, q) == LET l == Layer(u, q, <<>>, FALSE) IN
              IF Len(l.q) = 1 THEN [u |-> l.u, id |-> l.q[1]] ELSE Tree(l.u, l.q)

NonCb == { t \in DOMAIN U.txs : ~U.txs[t].cb }
Outs == UNION { { <<t, j - 1>> : j \in DOMAIN U.txs[t].outs } : t \in DOMAIN U.txs }
In(o, k, v, sg) == [tx |-> o[1], ind |-> o[2], val |-> v, key |-> k, how |-> IF sg THEN "ok" ELSE "garbage",
                    sig |-> sg, pk |-> 91, sg |-> 71]
OVal(o) == U.txs[o[1]].outs[o[2] + 1].val
OKey(o) == U.txs[o[1]].outs[o[2] + 1].key

(* defects: "none" or one of                                                 *)
TxDefects == {"none", "sig", "owner", "val", "dup", "over", "nofee", "minb"}
BlkDefects == {"none", "cbval", "cbheight", "cb2", "nocb", "pow", "time", "target"}

Nothing == /\ UNCHANGED <<s, log, last>>

\* Inventing things commutes with what the node does, so all of it comes first.
CreateTx ==
  /\ log = <<>>
  /\ Cardinality(NonCb) < MaxTxs
  /\ Outs # {}
  /\ \E d \in TxDefects \cap (Defects \cup {"none"}), o \in Outs, o2 \in Outs \cup {<<>>},
        k \in KeysMC, split \in BOOLEAN :
       LET two == o2 # <<>> /\ o2 # o
           v1 == IF d = "val" THEN OVal(o) + 3 ELSE OVal(o)
           k1 == IF d = "owner" THEN (CHOOSE kk \in KeysMC : kk # OKey(o)) ELSE OKey(o)
           ins == <<In(o, k1, v1, d # "sig")>>
                  \o (IF two THEN <<In(o2, OKey(o2), OVal(o2), TRUE)>> ELSE <<>>)
                  \o (IF d = "dup" THEN <<In(o, OKey(o), OVal(o), TRUE)>> ELSE <<>>)
           tin == SumOf(LAMBDA x : x.val, ins)
           tout == IF d = "nofee" THEN tin ELSE IF d = "over" THEN tin + 2 ELSE tin - 1
           outs == IF split /\ tout > 1 THEN <<[val |-> 1, key |-> k], [val |-> tout - 1, key |-> OKey(o)]>>
                   ELSE <<[val |-> tout, key |-> k]>>
           x == [cb |-> FALSE, minb |-> IF d = "minb" THEN 3 ELSE 0, ins |-> ins, outs |-> outs]
           a == AddTx(U, x)
       IN /\ tout > 0
          /\ (d # "none" => bad < MaxBad)
          /\ U' = a.u
          /\ bad' = IF d # "none" THEN bad + 1 ELSE bad
          /\ Nothing

\* sequences without repetition of at most two of the transactions (repetition is the "twice" defect)
Lists == {<<>>} \cup { <<t>> : t \in NonCb }
         \cup { <<p[1], p[2]>> : p \in { pp \in NonCb \X NonCb : pp[1] # pp[2] } }

CreateBlock ==
  /\ log = <<>>
  /\ Cardinality(DOMAIN U.blks) < MaxBlks
  /\ \E prev \in {Zero} \cup DOMAIN U.blks, ts \in Lists, d \in BlkDefects \cap (Defects \cup {"none"}),
        k \in KeysMC :
       LET h == Height(U, prev) + 1
           fees == SumOf(LAMBDA t : Fee(U.txs[t]), ts)
           cbx == [cb |-> TRUE, minb |-> IF d = "cbheight" THEN h + 1 ELSE h, ins |-> <<>>,
                   outs |-> <<[val |-> Params.reward + fees + (IF d = "cbval" THEN 1 ELSE 0), key |-> k]>>]
           a == AddTx(U, cbx)
           cb2 == AddTx(a.u, [cbx EXCEPT !.outs[1].val = @ + 1])
           q == IF d = "nocb" THEN ts ELSE <<a.id>> \o ts \o (IF d = "cb2" THEN <<cb2.id>> ELSE <<>>)
           tr == Tree(IF d = "cb2" THEN cb2.u ELSE a.u, q)
           ptime == IF prev = Zero THEN 100 ELSE U.blks[prev].time
           b == [prev |-> prev, root |-> tr.id, time |-> IF d = "time" THEN ptime ELSE ptime + 10,
                 tg |-> IF d = "target" THEN TDiv4(Params.origT) ELSE Params.origT, pow |-> d # "pow"]
           id == NewId("b", U.blks)
       IN /\ q # <<>>
          /\ fees >= 0
          /\ (k = "k2" => bad = MaxBad \/ Defects = {})
          /\ U' = [tr.u EXCEPT !.blks = @ @@ (id :> b)]
          /\ LET odd == d # "none" \/ (Fill /\ AdvanceAll(U', EmptyState, ChainTo(U', id)).broken # {})
             IN /\ (odd => bad < MaxBad)
                /\ bad' = IF odd THEN bad + 1 ELSE bad
          /\ Nothing

\* entities of the chain to b, oldest block first, children before parents
RECURSIVE Nodes(_, _)
Nodes(u, q) == IF q = <<>> THEN <<>>
               ELSE IF IsTx(u, Head(q)) THEN Nodes(u, Tail(q))
               ELSE Append(Nodes(u, Tail(q) \o Kids(u.mks[Head(q)])), Head(q))
NoRep(q) == FoldLeft(LAMBDA acc, x : IF \E j \in DOMAIN acc : acc[j] = x THEN acc ELSE Append(acc, x), <<>>, q)
\* transactions in an order in which each comes after the ones it spends
RECURSIVE DepOrder(_, _)
DepOrder(u, q) ==
  IF q = <<>> THEN <<>>
  ELSE LET ready == { j \in DOMAIN q : \A i \in Range(u.txs[q[j]].ins) : \A n \in DOMAIN q : q[n] = i.tx => n = j }
           j == IF ready = {} THEN 1 ELSE Min(ready)
       IN <<q[j]>> \o DepOrder(u, RemoveAt(q, j))
OfferOf(u, b) ==
  LET c == ChainTo(u, b) IN
  [head |-> b,
   txs  |-> NoRep(FlattenSeq([j \in DOMAIN c |-> DepOrder(u, BlockTxs(u, c[j]))])),
   mks  |-> NoRep(FlattenSeq([j \in DOMAIN c |-> Nodes(u, <<u.blks[c[j]].root>>)])),
   blks |-> c]
\* what the sender would really send: only what the node lacks
Lean(o) == [o EXCEPT !.txs = SelectSeq(@, LAMBDA x : x \notin s.ktx),
                     !.mks = SelectSeq(@, LAMBDA x : x \notin s.kmk),
                     !.blks = SelectSeq(@, LAMBDA x : x \notin s.kbl)]
Drops(o) == { [o EXCEPT !.txs = RemoveAt(@, j)] : j \in DOMAIN o.txs }
            \cup { [o EXCEPT !.mks = RemoveAt(@, j)] : j \in DOMAIN o.mks }
            \cup { [o EXCEPT !.blks = RemoveAt(@, j)] : j \in DOMAIN o.blks }

Done == [op |-> "none", moved |-> FALSE, res |-> "", b |-> ""]

DoSubmit ==
  /\ Len(log) < MaxSteps
  /\ Fill => Cardinality(DOMAIN U.blks) = MaxBlks
  /\ \E t \in NonCb :
       LET r == SubmitTx(U, s, t) IN
       /\ s' = r.s
       /\ log' = Append(log, [op |-> "tx", via |-> "bus", t |-> t])
       /\ last' = [op |-> "tx", moved |-> FALSE, res |-> r.res, b |-> t]
       /\ UNCHANGED <<U, bad>>

DoOffer ==
  /\ Len(log) < MaxSteps
  /\ Fill => Cardinality(DOMAIN U.blks) = MaxBlks
  /\ \E b \in DOMAIN U.blks :
       LET full == OfferOf(U, b) IN
       \E o \in {Lean(full)} \cup (IF "full" \in Defects THEN {full} ELSE {})
                 \cup (IF "drop" \in Defects /\ bad < MaxBad THEN Drops(Lean(full)) ELSE {}) :
         LET r == Offer(U, s, o, Now)
             short == o # Lean(full) /\ o # full
         IN /\ s' = r.s
            /\ log' = Append(log, [op |-> "offer", via |-> "bus", o |-> o])
            /\ last' = [op |-> IF short THEN "short" ELSE "offer", moved |-> r.moved, res |-> "", b |-> b]
            /\ bad' = IF short THEN bad + 1 ELSE bad
            /\ UNCHANGED U

DoRestart ==
  /\ WithRestart
  /\ Len(log) > 0 /\ Len(log) < MaxSteps
  /\ log[Len(log)].op # "restart"
  /\ s' = Restart(U, s)
  /\ log' = Append(log, [op |-> "restart", via |-> "bus"])
  /\ last' = [Done EXCEPT !.op = "restart"]
  /\ UNCHANGED <<U, bad>>

Init == /\ U = [P |-> Params, txs |-> <<>>, mks |-> <<>>, blks |-> <<>>]
        /\ s = EmptyState
        /\ log = <<>>
        /\ bad = 0
        /\ last = Done
Next == CreateTx \/ CreateBlock \/ DoSubmit \/ DoOffer \/ DoRestart

Script == [txs |-> U.txs, mks |-> U.mks, blks |-> U.blks, steps |-> log]
PrintIt == (Emit /\ Len(log) = MaxSteps /\ last.op # "none") => PrintT(ToJson([k |-> "SCRIPT", s |-> Script]))
\* behaviours end when the last step is printed
Bound == Len(log) < MaxSteps

Spec == Init /\ [][Next]_vars
View == <<U, s, bad, Len(log), last>>

(******************************* properties *********************************)
Conservation == ConservationOf(U, s)                       \* C01
NoDoubleSpend == NoDoubleSpendOf(U, s)                     \* C02
Signed == SignedOf(U, s)                                   \* C03
StateIsFold == FoldOf(U, s)                                \* C05
PendingPartition == PendingPartitionOf(U, s)               \* C07
InventoryClosed == InventoryClosedOf(U, s)                 \* C10, C23
\* only valid chains: every adopted chain is one a fresh node would adopt    C04, C10
ValidChain(u, b) == Offer(u, EmptyState, OfferOf(u, b), Now).moved
HeadValid == s.head # Zero => ValidChain(U, s.head)

OnlyHeavier == [][s'.head # s.head => Work(U', s'.head) > Work(U, s.head) /\ last'.moved]_vars
\* C04: a complete valid heavier chain is adopted whatever happened before, and nothing else is
AdoptsExactly ==
  [][(log' # log /\ last'.op = "offer") =>
        (last'.moved <=> (ValidChain(U, last'.b) /\ Work(U, last'.b) > Work(U, s.head)))]_vars
\* C06: whatever is refused changes nothing a user sees
RefusalIsQuiet ==
  [][(log' # log /\ ~last'.moved) => (s'.head = s.head /\ s'.utxo = s.utxo /\ s'.inc = s.inc)]_vars
\* C07: verified transactions stay pending until confirmed, and come back
PendingKept ==
  [][(log' # log /\ last'.op # "restart") =>
        \A t \in s.pend \cup DOMAIN s.inc : t \in s'.pend \cup DOMAIN s'.inc]_vars
KnownPending == ~WithRestart => s.ktx = s.pend \cup DOMAIN s.inc
Inventory == [][s.ktx \subseteq s'.ktx /\ s.kmk \subseteq s'.kmk /\ s.kbl \subseteq s'.kbl]_vars
=============================================================================
