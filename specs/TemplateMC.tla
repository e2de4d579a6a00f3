------------------------------ MODULE TemplateMC ------------------------------
(***************************************************************************)
(* The template algorithm against what Ledger demands of a template, over  *)
(* every pool of a few pending transactions that differ in what they       *)
(* spend, fee, size, and earliest block, and over several block sizes.     *)
(* The algorithm goes through the includable transactions, best fee rate   *)
(* first (ties in any order), and takes each one that fits and whose       *)
(* inputs are still free.  Variant names one way of getting it wrong:      *)
(*   stop    the first one that does not fit ends the search               *)
(*   first   only the first input is looked at for conflicts               *)
(*   eager   inputs count as consumed by one that does not fit             *)
(*   cheap   worst fee rate first                                          *)
(*   fee     best fee first, whatever the size                             *)
(*   parent  what pending transactions create may be spent                 *)
(*   early   the earliest block is compared with the head's height         *)
(*   full    the coinbase's share of the block is forgotten                *)
(*   half    the search ends when half of the block is taken               *)
(* The finished template becomes a block (C09): it has to be adoptable.    *)
(* The same pools are replayed on the real code (Emit).                    *)
(***************************************************************************)
EXTENDS Ledger, Json, Randomization

CONSTANTS NTx, Fees, Room, Variant, Emit, Draw
VARIABLES pool,   \* sequence of kinds
          room,   \* size of a block without its coinbase
          rest,   \* includable transactions not yet gone through
          used,   \* inputs counted as consumed
          out, size, done
vars == <<pool, room, rest, used, out, size, done>>

(********************************* pools ***********************************)
\* two coins and, for all but the first, what the first creates
Spends == {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<0>>}
Kinds == { k \in [ins : Spends, fee : Fees, big : BOOLEAN, late : BOOLEAN] : k.late => k.fee = Max(Fees) /\ ~k.big }
Rank(k) == (IF k.late THEN 1 ELSE 0) + (IF k.big THEN 2 ELSE 0) + 4 * k.fee
           + 64 * (CHOOSE n \in 1..5 : <<<<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<0>>>>[n] = k.ins)
Coin == 100
Name(j) == "t" \o ToString(j)
CbName(n) == "c" \o ToString(n)
SomeIn(tx, v) == [tx |-> tx, ind |-> 0, val |-> v, key |-> "k1", how |-> "ok", sig |-> TRUE, pk |-> 91, sg |-> 71]
RECURSIVE PoolTxs(_, _)
PoolTxs(p, n) ==
  IF n = 0 THEN <<>>
  ELSE LET k == p[n]
           old == PoolTxs(p, n - 1)
           first == IF n = 1 THEN 0 ELSE old[Name(1)].outs[1].val
           ins == [j \in DOMAIN k.ins |-> IF k.ins[j] = 0 THEN SomeIn(Name(1), first) ELSE SomeIn(CbName(k.ins[j]), Coin)]
           left == SumOf(LAMBDA i : i.val, ins) - k.fee
           \* the last one marks the transaction: equal kinds are different transactions
           outs == (IF k.big THEN [j \in 1..6 |-> [val |-> IF j = 1 THEN left - 5 - n ELSE 1, key |-> "k1"]]
                             ELSE <<[val |-> left - n, key |-> "k1"]>>) \o <<[val |-> n, key |-> "k2"]>>
       IN old @@ (Name(n) :> [cb |-> FALSE, minb |-> IF k.late THEN 4 ELSE 0, ins |-> ins, outs |-> outs])
Cb(h) == [cb |-> TRUE, minb |-> h, ins |-> <<>>, outs |-> <<[val |-> Coin, key |-> "k1"]>>]
UOf(p, r) ==
  [P |-> [reward |-> Coin, maxBlk |-> CbVSize + r],
   txs |-> PoolTxs(p, Len(p)) @@ ("c1" :> Cb(1)) @@ ("c2" :> Cb(2)),
   mks |-> ("m1" :> [l |-> "c1", r |-> "c1"]) @@ ("m2" :> [l |-> "c2", r |-> "c2"]),
   blks |-> ("b1" :> [prev |-> Zero, root |-> "m1"]) @@ ("b2" :> [prev |-> "b1", root |-> "m2"])]
U == UOf(pool, room)
Pool == { Name(j) : j \in DOMAIN pool }
S == [FoldOfChain(U, "b2") EXCEPT !.pend = Pool]

(******************************* the algorithm ******************************)
Ok(t) == IF Variant = "parent"
           THEN U.txs[t].minb <= 3 /\ Consumes(U.txs[t]) \subseteq S.utxo \cup UNION { Creates(U, u) : u \in Pool }
         ELSE IF Variant = "early"
           THEN U.txs[t].minb <= 4 /\ Consumes(U.txs[t]) \subseteq S.utxo
         ELSE Includable(U, S, t)
Before(t, u) ==    \* t may come before u
  LET x == U.txs[t] y == U.txs[u] IN
  IF Variant = "cheap" THEN RateLeq(x, y)
  ELSE IF Variant = "fee" THEN Fee(x) >= Fee(y)
  ELSE RateLeq(y, x)
InputsOf(t) == { <<i.tx, i.ind>> : i \in Range(U.txs[t].ins) }
FirstOf(t) == { <<U.txs[t].ins[1].tx, U.txs[t].ins[1].ind>> }
Smallest == 320

Init == /\ pool \in IF Emit THEN RandomSubset(Draw, [1..NTx -> Kinds]) ELSE [1..NTx -> Kinds]
        \* one order of the pool stands for all; only the first is special
        /\ Emit \/ \A j \in 2..(NTx - 1) : Rank(pool[j]) <= Rank(pool[j + 1])
        /\ pool[1].ins # <<0>>
        /\ room \in Room
        /\ rest = { t \in Pool : Ok(t) }
        /\ used = {} /\ out = <<>> /\ done = FALSE
        /\ size = IF Variant = "full" THEN 0 ELSE CbVSize

Look == /\ ~done /\ rest # {}
        /\ \E t \in rest :
             LET fits == size + VSize(U.txs[t]) <= U.P.maxBlk
                 free == (IF Variant = "first" THEN FirstOf(t) ELSE InputsOf(t)) \cap used = {}
                 take == fits /\ free
                 sz == IF take THEN size + VSize(U.txs[t]) ELSE size
             IN /\ \A u \in rest : Before(t, u)
                /\ rest' = rest \ {t}
                /\ out' = IF take THEN Append(out, t) ELSE out
                /\ size' = sz
                /\ used' = IF take \/ (Variant = "eager" /\ free)
                           THEN used \cup (IF Variant = "first" THEN FirstOf(t) ELSE InputsOf(t)) ELSE used
                \* nothing smaller exists
                /\ done' = \/ rest' = {}
                           \/ take /\ sz > U.P.maxBlk - Smallest
                           \/ Variant = "stop" /\ ~fits
                           \/ Variant = "half" /\ 2 * sz > U.P.maxBlk
        /\ UNCHANGED <<pool, room>>
Finish == ~done /\ rest = {} /\ done' = TRUE /\ UNCHANGED <<pool, room, rest, used, out, size>>
Next == Look \/ Finish
Spec == Init /\ [][Next]_vars

(******************************** properties ********************************)
Good == done => TemplateBroken(U, S, out) = {}
\* the mined block is adopted
Adoptable ==
  done =>
    LET fees == SumOf(LAMBDA t : Fee(U.txs[t]), out)
        W == [U EXCEPT !.txs = @ @@ ("cn" :> [Cb(3) EXCEPT !.outs[1].val = Coin + fees]),
                       !.blks = @ @@ ("bn" :> [prev |-> "b2", root |-> "mn"])]
        r == FoldLeft(LAMBDA acc, t : IF acc.broken # {} THEN acc
                        ELSE LET br == AdvTxBroken(W, acc.s, "bn", t)
                             IN IF br # {} THEN [acc EXCEPT !.broken = br]
                                ELSE [acc EXCEPT !.s = ApplyTx(W, acc.s, "bn", t)],
                      [s |-> S, broken |-> {}], <<"cn">> \o out)
    IN /\ r.broken = {}
       /\ Supply(r.s) = 3 * Coin
       /\ SumOf(LAMBDA t : VSize(W.txs[t]), <<"cn">> \o out) <= U.P.maxBlk
PrintIt == (Emit /\ done) => PrintT(ToJson([k |-> "SCRIPT", s |-> [txs |-> U.txs, mks |-> U.mks, blks |-> U.blks,
                                           out |-> out, pool |-> [j \in DOMAIN pool |-> Name(j)]]]))
=============================================================================
