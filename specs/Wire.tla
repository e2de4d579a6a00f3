-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* Messages on one direction of a peer connection: a writer puts values on *)
(* a byte stream, the network hands over the bytes in pieces of any size   *)
(* at any time, and a reader takes them off again, sometimes giving up     *)
(* waiting for the start of the next message and trying again later.       *)
(*                                                                         *)
(* A string travels as its length in HLen digits of base Base, then its    *)
(* bytes.  A fixed-size value travels as its bytes alone.  A read of a     *)
(* header may give up at any moment (the reader polls for commands); what  *)
(* did arrive of it must not be lost.  Reads of the rest wait for as long  *)
(* as the protocol allows, which no honest network exceeds.                *)
(*                                                                         *)
(* Constants of the code: Base = 256, HLen = 2, Limit = 65535.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS Base, HLen,  \* coding of lengths
          Limit,       \* the longest string a writer accepts
          Lens,        \* lengths of the strings written
          Fixed,       \* sizes of the fixed-size values written
          NItems,      \* number of values
          MaxPolls,    \* how often a reader may give up
          KeepPartial  \* whether bytes of an abandoned read are kept

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
\* the digits of a length, most significant first; what does not fit is cut off
Digits(l) == [i \in 1..HLen |-> (l \div Pow(Base, HLen - i)) % Base]
RECURSIVE Num(_)
Num(s) == IF s = <<>> THEN 0 ELSE Num(Front(s)) * Base + Last(s)

Items == [k : {"s"}, n : Lens] \cup [k : {"f"}, n : Fixed]
\* what a writer does with a value
Accepted(it) == it.k = "f" \/ it.n <= Limit
\* the bytes of the k-th value.  The values are chosen so that misreading is
\* as likely to go unnoticed as possible: every byte is also a valid digit
Body(it, k) == [i \in 1..it.n |-> (k + i) % Base]
Bytes(it, k) == IF it.k = "s" THEN Digits(it.n) \o Body(it, k) ELSE Body(it, k)
\* what arrives, for the conformance checks: the values a reader must get, in
\* order, when a writer is given the values ws
Arrives(ws) == SelectSeq(ws, Accepted)

VARIABLES items, w,       \* the values, the number of the next to write
          net, buf,       \* bytes in the network, bytes at the reader's end
          kept,           \* bytes taken by an abandoned read
          want,           \* the rest of the current string's length: -1 when none is being read
          got, exp, polls
vars == <<items, w, net, buf, kept, want, got, exp, polls>>

Init == /\ items \in [1..NItems -> Items]
        /\ w = 1 /\ net = <<>> /\ buf = <<>> /\ kept = <<>> /\ want = -1
        /\ got = <<>> /\ exp = <<>> /\ polls = 0

Write == /\ w <= NItems
         /\ w' = w + 1
         /\ IF Accepted(items[w])
            THEN /\ net' = net \o Bytes(items[w], w)
                 /\ exp' = Append(exp, [k |-> items[w].k, b |-> Body(items[w], w)])
            ELSE UNCHANGED <<net, exp>>
         /\ UNCHANGED <<items, buf, kept, want, got, polls>>
Deliver == /\ net # <<>>
           /\ \E n \in 1..Len(net) : buf' = buf \o SubSeq(net, 1, n) /\ net' = SubSeq(net, n + 1, Len(net))
           /\ UNCHANGED <<items, w, kept, want, got, exp, polls>>
\* the reader knows what kind of value comes next (the conversation says so)
NextKind == LET e == Arrives(items) IN IF Len(got) < Len(e) THEN e[Len(got) + 1] ELSE [k |-> "none", n |-> 0]
Avail == Len(kept) + Len(buf)
Taken(n) == SubSeq(kept \o buf, 1, n)
Consume(n) == /\ kept' = SubSeq(kept, n + 1, Len(kept))
              /\ buf' = SubSeq(buf, (IF n > Len(kept) THEN n - Len(kept) ELSE 0) + 1, Len(buf))
ReadHead == /\ NextKind.k = "s" /\ want = -1 /\ Avail >= HLen
            /\ want' = Num(Taken(HLen)) /\ Consume(HLen)
            /\ UNCHANGED <<items, w, net, got, exp, polls>>
\* giving up on a header
Poll == /\ NextKind.k = "s" /\ want = -1 /\ Avail < HLen /\ polls < MaxPolls
        /\ polls' = polls + 1
        /\ kept' = IF KeepPartial THEN kept \o buf ELSE <<>>
        /\ buf' = <<>>
        /\ UNCHANGED <<items, w, net, want, got, exp>>
ReadBody == /\ NextKind.k = "s" /\ want >= 0 /\ Avail >= want
            /\ got' = Append(got, [k |-> "s", b |-> Taken(want)])
            /\ Consume(want) /\ want' = -1
            /\ UNCHANGED <<items, w, net, exp, polls>>
ReadFixed == /\ NextKind.k = "f" /\ Avail >= NextKind.n
             /\ got' = Append(got, [k |-> "f", b |-> Taken(NextKind.n)])
             /\ Consume(NextKind.n)
             /\ UNCHANGED <<items, w, net, want, exp, polls>>
Next == Write \/ Deliver \/ ReadHead \/ Poll \/ ReadBody \/ ReadFixed
Spec == Init /\ [][Next]_vars /\ WF_vars(Write) /\ WF_vars(Deliver) /\ WF_vars(ReadHead)
             /\ WF_vars(ReadBody) /\ WF_vars(ReadFixed)

----------------------------------------------------------------------------
\* what was read is what was written, and nothing else
Faithful == \E n \in 0..Len(exp) : got = SubSeq(exp, 1, n)
\* every accepted value arrives
Arrive == <>(w > NItems /\ got = exp /\ net = <<>> /\ buf = <<>> /\ kept = <<>>)
\* when nothing more can happen everything was read
Complete == ~ENABLED Next => w > NItems /\ got = exp /\ buf = <<>> /\ kept = <<>>
=============================================================================
