------------------------------ MODULE WireTrace -----------------------------
(***************************************************************************)
(* Recorded messages between two real connections through a relay that     *)
(* cuts and delays the bytes, judged by Wire: in each direction a value is *)
(* refused exactly when Wire refuses it, and the values read are the       *)
(* accepted ones, unchanged and in order, every one of them.               *)
(* An event: e = "w" or "r", d the direction, k the kind of value, ss the  *)
(* lengths of the strings in it, dig a digest of its content, res.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
W == INSTANCE Wire WITH Base <- 256, HLen <- 2, Limit <- 65535, Lens <- {}, Fixed <- {}, NItems <- 0, MaxPolls <- 0,
       KeepPartial <- TRUE, items <- <<>>, w <- 0, net <- <<>>, buf <- <<>>, kept <- <<>>, want <- 0, got <- <<>>,
       exp <- <<>>, polls <- 0
Of(r, e, d) == SelectSeq(r.evs, LAMBDA x : x.e = e /\ x.d = d)
\* a value is accepted when all its strings are
Acc(x) == \A i \in DOMAIN x.ss : W!Accepted([k |-> "s", n |-> x.ss[i]])
Bad(r, d) ==
  LET ws == Of(r, "w", d)
      rs == Of(r, "r", d)
      ok == SelectSeq(ws, Acc)
      full == r.done
  IN (IF \E i \in DOMAIN ws : Acc(ws[i]) /\ ws[i].res # "ok" THEN {"refused"} ELSE {})
     \cup (IF \E i \in DOMAIN ws : ~Acc(ws[i]) /\ ws[i].res = "ok" THEN {"too-long-accepted"} ELSE {})
     \cup (IF \E i \in DOMAIN rs : rs[i].res = "stuck" THEN {"lost"} ELSE {})
     \cup (IF \E i \in DOMAIN rs : rs[i].res = "error" THEN {"misparsed"} ELSE {})
     \cup (IF Len(rs) > Len(ok) \/ \E i \in DOMAIN rs : i <= Len(ok) /\ rs[i].res = "ok"
                                                       /\ <<rs[i].k, rs[i].dig>> # <<ok[i].k, ok[i].dig>>
           THEN {"changed"} ELSE {})
     \cup (IF full /\ Len(rs) # Len(ok) THEN {"lost"} ELSE {})
VARIABLE i
Init == i \in 1..Len(Runs)
Next == /\ i > 0 /\ i' = 0
        /\ PrintT(ToJson([k |-> "FRAMES", run |-> Runs[i].name, n |-> Len(Runs[i].evs),
                          bad |-> Bad(Runs[i], "ab") \cup Bad(Runs[i], "ba")]))
Spec == Init /\ [][Next]_i
=============================================================================
