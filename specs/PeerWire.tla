------------------------------ MODULE PeerWire ------------------------------
(***************************************************************************)
(* One side of the conversation between two connected nodes, as a machine  *)
(* that writes and reads typed tokens.  The machine is a list of           *)
(* operations still to do (a continuation); an empty list is the main loop *)
(* where the side either issues a command for a pending local event or     *)
(* reads a command of the other side.                                      *)
(*                                                                         *)
(* The same operators drive the two-sided exhaustive model (PeerMC) and    *)
(* the validation of conversations recorded from real nodes (LedgerTrace). *)
(*                                                                         *)
(* Tokens: [k |-> kind, v |-> value]; kinds "s" length-prefixed string,    *)
(* "h" id, "w" work, "b" boolean, "u" number, "blk" "mk" "tx" whole        *)
(* entities (value: the entity).                                           *)
(* A machine m = [role, todo, evs, head, s, addr, dels, bad]:              *)
(*   role "i" (opened the connection) or "n"; evs pending local events;    *)
(*   head the head this side last heard of; s its ledger; addr the other   *)
(*   side's announced address; cand what was handed to the node's ledger   *)
(*   and not applied yet (at any later moment it is); dels what was handed *)
(*   to the rest of the node; news what every peer of the node is told     *)
(*   about; bad the first disagreement.                                    *)
(***************************************************************************)
EXTENDS Ledger

Str(t)  == [k |-> "s", v |-> t]
IdT(x)  == [k |-> "h", v |-> x]
BoolT(x) == [k |-> "b", v |-> x]
W(t) == [o |-> "w", t |-> t]           \* write t
Rd(o, x) == [o |-> o, x |-> x]         \* read something and continue as o says
Do(o, x) == [o |-> o, x |-> x]         \* an internal step

Machine(role, s, id) ==
  [role |-> role, todo |-> <<>>, evs |-> <<>>, head |-> s.head, s |-> s, id |-> id,
   addr |-> <<>>, cand |-> <<>>, dels |-> <<>>, news |-> <<>>, bad |-> ""]
Fail(m, why) == IF m.bad = "" THEN [m EXCEPT !.bad = why] ELSE m
Deliver(m, d) == [m EXCEPT !.dels = Append(@, d)]
Push(m, ops) == [m EXCEPT !.todo = ops \o Tail(@)]
Done(m) == Push(m, <<>>)

(****************************** the commands ********************************)
\* a local event is [c |-> command, a |-> argument]
SyncOps(U, m) == <<W([k |-> "w", v |-> Work(U, m.head)]), W(IdT(m.head)), Rd("swork", 0)>>
PairOps(S) == IF S = {} THEN <<>> ELSE <<[o |-> "pairs", x |-> S]>>   \* in any order
\* what the side issuing the command does once it is acknowledged
Writer(U, m, ev) ==
  CASE ev.c = "sync-chain"    -> SyncOps(U, m)
    [] ev.c = "announce-addr" -> <<W(Str(ev.a))>>
    [] ev.c = "peer-addrs"    -> <<W([k |-> "u", v |-> Len(ev.a)])>> \o PairOps(Range(ev.a))
    [] ev.c = "new-tx"        -> <<W(IdT(ev.a)), Rd("wanted", ev.a)>>
    [] OTHER                  -> <<>>
\* what the other side does after acknowledging it
Reader(U, m, c) ==
  CASE c = "sync-chain"    -> SyncOps(U, m)
    [] c = "announce-addr" -> <<Rd("addr", 0)>>
    [] c = "addrs-request" -> <<Do("requested", 0)>>
    [] c = "peer-addrs"    -> <<Rd("npeers", 0)>>
    [] c = "new-tx"        -> <<Rd("txid", 0)>>
    [] OTHER               -> <<>>
Commands == {"sync-chain", "announce-addr", "addrs-request", "peer-addrs", "new-tx", "ping", "close"}
CmdText(c) == "cmd:" \o c
AckText(c) == "ack:" \o c
IsCmd(t) == \E c \in Commands : t = CmdText(c)
CmdOf(t) == CHOOSE c \in Commands : t = CmdText(c)

(****************************** internal steps ******************************)
\* the entities of the blocks bs (oldest first), in an order in which they can be verified
RECURSIVE Post(_, _)
Post(U, id) == IF IsTx(U, id) THEN <<>>
               ELSE Post(U, U.mks[id].l) \o Post(U, U.mks[id].r) \o <<id>>
OfferOf(U, head, bs, got) ==
  [head |-> head, blks |-> bs,
   txs |-> SelectSeq(FoldLeft(LAMBDA acc, b : acc \o BlockTxs(U, b), <<>>, bs), LAMBDA t : t \in got),
   mks |-> SelectSeq(FoldLeft(LAMBDA acc, b : acc \o Post(U, U.blks[b].root), <<>>, bs), LAMBDA t : t \in got)]
QuickOK(U, m, bs, lca) ==
  /\ U.blks[bs[1]].prev = lca
  /\ \A j \in 2..Len(bs) : U.blks[bs[j]].prev = bs[j - 1]
  /\ \A b \in Range(bs) : U.blks[b].pow
  /\ Work(U, bs[Len(bs)]) > Work(U, m.head)

\* run internal steps until the machine waits for a token, writes one, or is in its loop
RECURSIVE Settle(_, _, _)
Settle(U, m, now) ==
  IF m.todo = <<>> \/ m.bad # "" THEN m
  ELSE LET op == Head(m.todo) IN
    CASE op.o = "requested" ->
           Settle(U, [Deliver(Done(m), <<"requested">>) EXCEPT
                      !.evs = Append(@, [c |-> "peer-addrs", a |-> IF m.addr = <<>> THEN <<>> ELSE <<<<m.id, m.addr[1]>>>>])], now)
      [] op.o \in {"submit", "offer"} -> Settle(U, [Done(m) EXCEPT !.cand = Append(@, op)], now)
      [] op.o = "recv" -> Settle(U, Push(m, <<W(Str(AckText(op.x)))>> \o Reader(U, m, op.x)), now)
      [] op.o = "issued" -> Settle(U, Push(m, Writer(U, m, op.x)), now)
      [] op.o = "outblks" ->
           Settle(U, Push(m, [j \in DOMAIN op.x |-> W([k |-> "blk", v |-> op.x[j]])] \o <<Rd("verified", 0)>>), now)
      [] OTHER -> m

\* the ledger of the node takes in the j-th candidate (candidates of one kind in order)
Takeable(m) == { j \in DOMAIN m.cand : \A k \in 1..(j - 1) : m.cand[k].o # m.cand[j].o }
News(m, ev) == [m EXCEPT !.evs = Append(@, ev), !.news = Append(@, ev)]
Take(U, m, j, now) ==
  LET op == m.cand[j]
      c  == SubSeq(m.cand, 1, j - 1) \o SubSeq(m.cand, j + 1, Len(m.cand))
  IN IF op.o = "submit"
     THEN LET r == SubmitTx(U, m.s, op.x)
              n == [m EXCEPT !.s = r.s, !.cand = c]
          IN IF r.res = "new" THEN News(n, [c |-> "new-tx", a |-> op.x]) ELSE n
     ELSE LET r == Offer(U, m.s, op.x, now)
              n == [m EXCEPT !.s = r.s, !.cand = c]
          IN IF r.moved THEN News(n, [c |-> "head", a |-> op.x.head]) ELSE n

(********************************* writing **********************************)
\* in the loop a pending event makes the side issue its command
NeedsIssue(m) == m.todo = <<>> /\ m.evs # <<>>
\* (events of one kind arrive in order)
Issuable(m) == { j \in DOMAIN m.evs : \A k \in 1..(j - 1) : m.evs[k].c # m.evs[j].c }
CommandOf(ev) == IF ev.c = "head" THEN "sync-chain" ELSE ev.c
StartIssue(m, j) ==
  LET ev == m.evs[j]
      c  == CommandOf(ev)
      n  == IF ev.c = "head" THEN [m EXCEPT !.head = ev.a] ELSE m
  IN [n EXCEPT !.evs = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@)),
               !.todo = <<W(Str(CmdText(c))), Rd("resp", [c |-> c, a |-> ev.a])>>]

\* what the synchronising side still has to ask for; its ledger may have got it meanwhile
Wanted(m, x) == x.want \ (m.s.kmk \cup m.s.ktx)
\* the tokens the machine may write now
Writes(U, m) ==
  IF m.todo = <<>> \/ m.bad # "" THEN {}
  ELSE LET op == Head(m.todo) IN
       IF op.o = "w" THEN {op.t}
       ELSE IF op.o = "ask" THEN (IF Wanted(m, op.x) = {} THEN {IdT(Zero)} ELSE { IdT(x) : x \in Wanted(m, op.x) })
       ELSE IF op.o = "pairs" THEN { Str(p[1]) : p \in op.x }
       ELSE {}
AfterWrite(U, m, t, now) ==
  LET op == Head(m.todo) IN
  IF op.o = "w" THEN Settle(U, Done(m), now)
  ELSE IF op.o = "pairs" THEN
    LET p == CHOOSE q \in op.x : q[1] = t.v IN Push(m, <<W(Str(p[2]))>> \o PairOps(op.x \ {p}))
  ELSE \* ask
    IF t.v = Zero THEN
       LET bs == Reverse(op.x.bs) IN
       Settle(U, Push(m, <<W(Str("complete")), Do("offer", OfferOf(U, op.x.bs[1], bs, op.x.got))>>), now)
    ELSE Push(m, <<Rd("askis", [op.x EXCEPT !.id = t.v])>>)

(********************************* reading **********************************)
Waits(m) == m.bad = "" /\ (m.todo = <<>> \/ Head(m.todo).o \notin {"w", "ask", "pairs"})
Kind(m) ==
  IF m.todo = <<>> THEN "s"
  ELSE CASE Head(m.todo).o \in {"resp", "exp", "any", "addr", "pid", "paddr", "scc"} -> "s"
         [] Head(m.todo).o \in {"txid", "shead", "ent", "iid"} -> "h"
         [] Head(m.todo).o \in {"wanted", "lca", "verified", "askis"} -> "b"
         [] Head(m.todo).o = "npeers" -> "u"
         [] Head(m.todo).o = "swork" -> "w"
         [] Head(m.todo).o = "iblk" -> "blk"
         [] Head(m.todo).o \in {"txbody", "asktx"} -> "tx"
         [] Head(m.todo).o = "askmk" -> "mk"
         [] OTHER -> "?"

AfterRead(U, m, t, now) ==
  IF m.todo = <<>> THEN
     IF t.k # "s" \/ ~IsCmd(t.v) THEN Fail(m, "unexpected message")
     ELSE Settle(U, [m EXCEPT !.todo = <<Do("recv", CmdOf(t.v))>>], now)
  ELSE LET op == Head(m.todo) IN
  IF t.k # Kind(m) THEN Fail(m, "wrong kind")
  ELSE
  CASE op.o = "resp" ->
         IF t.v = AckText(op.x.c) THEN Settle(U, Push(m, <<Do("issued", op.x)>>), now)
         ELSE IF IsCmd(t.v) THEN
              Settle(U, Push(m, IF m.role = "i"
                                THEN <<Do("recv", CmdOf(t.v)), Rd("exp", AckText(op.x.c)), Do("issued", op.x)>>
                                ELSE <<Rd("exp", AckText(op.x.c)), Do("issued", op.x), Do("recv", CmdOf(t.v))>>), now)
         ELSE Fail(m, "neither acknowledgement nor command")
    [] op.o = "exp" -> IF t.v = op.x THEN Settle(U, Done(m), now) ELSE Fail(m, "wrong string")
    [] op.o = "any" -> Settle(U, Done(m), now)
    [] op.o = "addr" -> Settle(U, [Deliver(Done(m), <<"announced", t.v>>) EXCEPT !.addr = <<t.v>>], now)
    [] op.o = "npeers" -> IF t.v = 0 THEN Settle(U, Deliver(Done(m), <<"received", <<>>>>), now)
                          ELSE Push(m, <<Rd("pid", [n |-> t.v, q |-> <<>>])>>)
    [] op.o = "pid" -> Push(m, <<Rd("paddr", [op.x EXCEPT !.q = Append(@, t.v)])>>)
    [] op.o = "paddr" ->
         LET q == Append(SubSeq(op.x.q, 1, Len(op.x.q) - 1), <<op.x.q[Len(op.x.q)], t.v>>) IN
         IF Len(q) = op.x.n THEN Settle(U, Deliver(Done(m), <<"received", q>>), now)
         ELSE Push(m, <<Rd("pid", [op.x EXCEPT !.q = q])>>)
    [] op.o = "wanted" -> IF t.v THEN Settle(U, Push(m, <<W([k |-> "tx", v |-> op.x])>>), now) ELSE Settle(U, Done(m), now)
    [] op.o = "txid" -> IF t.v \in m.s.ktx THEN Push(m, <<W(BoolT(FALSE))>>)
                        ELSE Push(m, <<W(BoolT(TRUE)), Rd("txbody", t.v)>>)
    [] op.o = "txbody" -> IF t.v # op.x THEN Fail(m, "wrong tx") ELSE Settle(U, Push(m, <<Do("submit", op.x)>>), now)
    \* synchronisation
    [] op.o = "swork" -> Push(m, <<Rd("shead", t.v)>>)
    [] op.o = "shead" ->
         LET our == Work(U, m.head) IN
         IF op.x = our \/ (our < op.x /\ t.v \in m.s.kbl)
         THEN Push(m, <<W(Str("cancel")), Rd("any", 0)>>)
         ELSE Push(m, <<W(Str("continue")), Rd("scc", op.x)>>)
    [] op.o = "scc" ->
         IF t.v = "cancel" THEN Settle(U, Done(m), now)
         ELSE IF t.v # "continue" THEN Fail(m, "neither cancel nor continue")
         ELSE IF op.x < Work(U, m.head)
              THEN Push(m, <<W(Str("sync:send")), Rd("exp", "sync:recv"), W(IdT(m.head)), Rd("lca", [b |-> m.head, q |-> <<>>])>>)
              ELSE Push(m, <<W(Str("sync:recv")), Rd("exp", "sync:send"), Rd("iid", <<>>)>>)
    [] op.o = "lca" ->
         IF t.v THEN (IF op.x.q = <<>> THEN Settle(U, Done(m), now)
                      ELSE Settle(U, Push(m, <<Do("outblks", op.x.q)>>), now))
         ELSE IF op.x.b = Zero THEN Fail(m, "the other side denies the start of every chain")
         ELSE LET p == U.blks[op.x.b].prev IN
              Push(m, <<W(IdT(p)), Rd("lca", [b |-> p, q |-> Append(op.x.q, op.x.b)])>>)
    [] op.o = "verified" -> IF t.v THEN Push(m, <<Rd("ent", 0)>>) ELSE Settle(U, Done(m), now)
    [] op.o = "ent" ->
         IF t.v = Zero THEN Push(m, <<Rd("exp", "complete")>>)
         ELSE IF t.v \in m.s.kmk THEN Push(m, <<W(BoolT(FALSE)), W([k |-> "mk", v |-> t.v]), Rd("ent", 0)>>)
         ELSE IF t.v \in m.s.ktx THEN Push(m, <<W(BoolT(TRUE)), W([k |-> "tx", v |-> t.v]), Rd("ent", 0)>>)
         ELSE Fail(m, "unknown entity asked for")
    [] op.o = "iid" ->
         IF t.v \in m.s.kbl
         THEN IF op.x = <<>> THEN Push(m, <<W(BoolT(TRUE))>>)
              ELSE Push(m, <<W(BoolT(TRUE)), Rd("iblk", [ids |-> op.x, n |-> 1, lca |-> t.v])>>)
         ELSE Push(m, <<W(BoolT(FALSE)), Rd("iid", Append(op.x, t.v))>>)
    [] op.o = "iblk" ->
         IF t.v # op.x.ids[op.x.n] THEN Fail(m, "wrong block")
         ELSE IF op.x.n < Len(op.x.ids) THEN Push(m, <<Rd("iblk", [op.x EXCEPT !.n = @ + 1])>>)
         ELSE LET bs == op.x.ids
                  want == { U.blks[b].root : b \in Range(bs) }
              IN IF QuickOK(U, m, Reverse(bs), op.x.lca)
                 THEN Push(m, <<W(BoolT(TRUE)), [o |-> "ask", x |-> [want |-> want, got |-> {}, id |-> "", bs |-> bs]]>>)
                 ELSE Push(m, <<W(BoolT(FALSE))>>)
    [] op.o = "askis" ->
         Push(m, <<Rd(IF t.v THEN "asktx" ELSE "askmk", op.x)>>)
    [] op.o \in {"asktx", "askmk"} ->
         IF t.v # op.x.id THEN Fail(m, "wrong entity")
         ELSE LET got == op.x.got \cup {t.v}
                  kids == IF op.o = "askmk" THEN Range(Kids(U.mks[t.v])) ELSE {}
                  want == (op.x.want \ {t.v}) \cup (kids \ got)
              IN Push(m, <<[o |-> "ask", x |-> [op.x EXCEPT !.want = want, !.got = got]]>>)
    [] OTHER -> Fail(m, "not reading")
=============================================================================
