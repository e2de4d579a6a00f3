-------------------------------- MODULE Ident -------------------------------
(***************************************************************************)
(* Entities are named by their content: two entities have the same id      *)
(* exactly when they agree on what the id covers, which is everything      *)
(* except the time a block says it was mined at.                           *)
(* The entities of a small domain, all of them, are written to a file, the *)
(* real code names them, and the names are compared with this.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC, SequencesExt
CONSTANTS Mode, Big
VARIABLE done

Seqs(S, n) == UNION { [1..k -> S] : k \in 0..n }
\* ids of other entities and amounts, as the harness knows them: 0, 1, and the largest
Ids == {0, 1}
Nums == {0, 1, 2}
Bytes == {<<>>, <<0>>, <<1>>, <<0, 1>>}
Ins1 == [tx : Ids, ind : Nums, val : Nums, pk : Bytes, sg : Bytes]
Ins2 == [tx : {0}, ind : {0, 1}, val : {0, 1}, pk : {<<>>, <<1>>}, sg : {<<1>>, <<1, 1>>}]
Outs == [val : Nums, key : Ids]
Txs == [cb : BOOLEAN, minb : {0, 1}, ins : Seqs(Ins1, 1), outs : Seqs(IF Big THEN Outs ELSE [val : {0, 1}, key : {0}], IF Big THEN 2 ELSE 1)]
       \cup [cb : {FALSE}, minb : {0}, ins : Seqs(Ins2, 2), outs : Seqs(Outs, IF Big THEN 2 ELSE 1)]
       \cup [cb : BOOLEAN, minb : Nums, ins : {<<>>}, outs : Seqs(Outs, 2)]
Mks == [l : 0..3, r : 0..3]
Blks == [prev : Ids, root : Ids, tg : Ids, noise : Ids, nonce : Nums, time : Nums]
All == { [k |-> "tx", x |-> x] : x \in Txs } \cup { [k |-> "mk", x |-> x] : x \in Mks } \cup { [k |-> "blk", x |-> x] : x \in Blks }

Covers(e) == IF e.k = "blk" THEN [e EXCEPT !.x = [f \in DOMAIN e.x \ {"time"} |-> e.x[f]]] ELSE e

Named == ndJsonDeserialize(IOEnv.NAMED)
\* the names tell apart exactly what the ids cover
Exact == LET c == { ToString(Covers(Named[i].e)) : i \in DOMAIN Named }
             n == { Named[i].n : i \in DOMAIN Named }
             p == { <<ToString(Covers(Named[i].e)), Named[i].n>> : i \in DOMAIN Named }
         IN [names |-> Cardinality(n), contents |-> Cardinality(c), pairs |-> Cardinality(p), of |-> Len(Named),
             ok |-> Cardinality(n) = Cardinality(c) /\ Cardinality(p) = Cardinality(c),
             clash |-> IF Cardinality(p) = Cardinality(n) THEN <<>>
                       ELSE LET q == CHOOSE a \in p : \E b \in p : a # b /\ a[2] = b[2]
                            IN <<q, CHOOSE b \in p : b # q /\ b[2] = q[2]>>]
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ IF Mode = "write" THEN ndJsonSerialize(IOEnv.NAMED, SetToSeq(All)) /\ PrintT(<<"N", Cardinality(All)>>)
           ELSE PrintT(ToJson(Exact @@ [k |-> "EXACT"]))
Spec == Init /\ [][Next]_done
=============================================================================
