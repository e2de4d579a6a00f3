------------------------------- MODULE PeerMC -------------------------------
(***************************************************************************)
(* Two nodes in conversation: two machines of PeerWire joined by a channel *)
(* in each direction.  Each node has a ledger with some chain, and until   *)
(* the budget is spent something happens at one of them: a block mined, a  *)
(* transaction submitted, a command of the keeper of peers.  Everything    *)
(* interleaves with every token of the conversation.                       *)
(*                                                                         *)
(* Sound:   no side ever reads what it cannot make sense of.               *)
(* Rests:   when nothing can happen any more, both are in their loops,     *)
(*          nothing is on its way, and both follow chains of equal work.   *)
(* Quiets:  they always come to rest, after at most MaxLen steps (which,  *)
(*          as steps commute, hardly tells states apart).                  *)
(* Bounded: little is ever on its way.                                     *)
(*                                                                         *)
(* Variants (each refuted):                                                *)
(*   "noroles"   on a collision both serve the other's command first       *)
(*   "unread"    who cancels does not read the other's answer              *)
(*   "newest"    entities of the newest block come first                   *)
(*   "livehead"  the decision uses the ledger's head, not the announced one*)
(*   "knownhead" chains of a known head are fetched all the same           *)
(***************************************************************************)
EXTENDS PeerWire

CONSTANTS MaxEvs, MaxLen, Variant, Heads, Extra
VARIABLES ms, ch, n, steps
vars == <<ms, ch, n, steps>>
Now == 200000
T(w) == [q |-> <<w>> \o [j \in 1..15 |-> 0], w |-> w]
Cb(h, k) == [cb |-> TRUE, minb |-> h, ins |-> <<>>, outs |-> <<[val |-> 8, key |-> k]>>]
Pay(t, k, v, k2) == [cb |-> FALSE, minb |-> 0, outs |-> <<[val |-> v, key |-> k2]>>,
                     ins |-> <<[tx |-> t, ind |-> 0, val |-> v + 1, key |-> k, how |-> "ok", sig |-> TRUE, pk |-> 91, sg |-> 71]>>]
Cb2(h, k, v) == [cb |-> TRUE, minb |-> h, ins |-> <<>>, outs |-> <<[val |-> v, key |-> k]>>]
Blk(p, r, i) == [prev |-> p, root |-> r, tg |-> T(7), pow |-> TRUE, time |-> 10 * i]
\* branch a with transactions that depend on earlier blocks, branch b without
U == [P |-> [reward |-> 8, dp |-> 50, btt |-> 10, maxBlk |-> 100000, maxTx |-> 100000, maxT |-> T(16383), origT |-> T(7)],
      txs |-> [ca1 |-> Cb(1, "k1"), ca2 |-> Cb2(2, "k1", 9), ca3 |-> Cb2(3, "k1", 9),
               cb1 |-> Cb(1, "k2"), cb2 |-> Cb(2, "k2"), cb3 |-> Cb(3, "k2"),
               t |-> Pay("ca1", "k1", 7, "k2"), u |-> Pay("t", "k2", 6, "k1")],
      mks |-> [ma1 |-> [l |-> "ca1", r |-> "ca1"], ma2 |-> [l |-> "ca2", r |-> "t"], ma3 |-> [l |-> "ca3", r |-> "u"],
               mb1 |-> [l |-> "cb1", r |-> "cb1"], mb2 |-> [l |-> "cb2", r |-> "cb2"], mb3 |-> [l |-> "cb3", r |-> "cb3"]],
      blks |-> [a1 |-> Blk(Zero, "ma1", 1), a2 |-> Blk("a1", "ma2", 2), a3 |-> Blk("a2", "ma3", 3),
                b1 |-> Blk(Zero, "mb1", 1), b2 |-> Blk("b1", "mb2", 2), b3 |-> Blk("b2", "mb3", 3)]]
Whole(b) == LET c == ChainTo(U, b)
                mk == FoldLeft(LAMBDA acc, x : acc \o Post(U, U.blks[x].root), <<>>, c)
            IN [head |-> b, blks |-> c, mks |-> mk, txs |-> ChainTxs(U, b)]
LedgerAt(b) == IF b = Zero THEN EmptyState ELSE Offer(U, EmptyState, Whole(b), Now).s

Side == {"i", "n"}
Other(x) == IF x = "i" THEN "n" ELSE "i"
Ev(c, a) == [c |-> c, a |-> a]
Init ==
  /\ n = 0 /\ steps = 0
  /\ ch = [x \in Side |-> <<>>]       \* what x will read
  /\ \E a, b \in Heads :
       ms = [x \in Side |-> [Machine(x, LedgerAt(IF x = "i" THEN a ELSE b), x) EXCEPT
                             !.evs = IF x = "i" THEN <<Ev("sync-chain", 0)>> ELSE <<>>]]

(******************************** variants **********************************)
VOffer(m) ==    \* the newest block's transactions first
  IF Variant = "newest" /\ m.cand # <<>> /\ Last(m.cand).o = "offer"
  THEN [m EXCEPT !.cand[Len(m.cand)].x.txs = Reverse(@)] ELSE m
VRead(m, t) ==
  LET op == IF m.todo = <<>> THEN Do("", 0) ELSE Head(m.todo) IN
  IF Variant = "noroles" /\ op.o = "resp" THEN AfterRead(U, [m EXCEPT !.role = "i"], t, Now)
  ELSE IF Variant = "livehead" /\ op.o = "shead" THEN AfterRead(U, [m EXCEPT !.head = m.s.head], t, Now)
  ELSE IF Variant = "unread" /\ op.o = "shead" THEN
    LET r == AfterRead(U, m, t, Now) IN
    IF r.todo # <<>> /\ r.todo[1].o = "w" /\ r.todo[1].t.v = "cancel" THEN [r EXCEPT !.todo = <<@[1]>> \o SubSeq(@, 3, Len(@))] ELSE r
  ELSE IF Variant = "knownhead" /\ op.o = "shead" THEN
    AfterRead(U, [m EXCEPT !.s.kbl = @ \ {t.v}], t, Now)
  ELSE AfterRead(U, m, t, Now)

(******************************** actions ***********************************)
Set(x, m) == ms' = [ms EXCEPT ![x] = VOffer(m)]
Write(x) == \E t \in Writes(U, ms[x]) :
  Set(x, AfterWrite(U, ms[x], t, Now)) /\ ch' = [ch EXCEPT ![Other(x)] = Append(@, t)] /\ UNCHANGED n
Read(x) == ch[x] # <<>> /\ (Waits(ms[x]) = TRUE) /\ Set(x, VRead(ms[x], Head(ch[x]))) /\ ch' = [ch EXCEPT ![x] = Tail(@)] /\ UNCHANGED n
Issue(x) == (NeedsIssue(ms[x]) = TRUE) /\ (\E j \in Issuable(ms[x]) : Set(x, StartIssue(ms[x], j))) /\ UNCHANGED <<ch, n>>
TakeIn(x) == (\E j \in Takeable(ms[x]) : Set(x, [Take(U, ms[x], j, Now) EXCEPT !.news = <<>>])) /\ UNCHANGED <<ch, n>>
\* something happens at x
Happens(x) ==
  LET m == ms[x] IN
  /\ n < MaxEvs /\ n' = n + 1 /\ UNCHANGED ch
  /\ \/ \E b \in DOMAIN U.blks \ m.s.kbl :
          /\ U.blks[b].prev = m.s.head
          /\ Set(x, [m EXCEPT !.cand = Append(@, Do("offer", Whole(b)))])
     \/ \E t \in {"t", "u"} \ m.s.ktx :
          TxBroken(U, m.s.ktx, t) = {} /\ Set(x, [m EXCEPT !.cand = Append(@, Do("submit", t))])
     \/ \E e \in Extra : Set(x, [m EXCEPT !.evs = Append(@, CASE e = "announce-addr" -> Ev(e, "a:" \o x)
                                                              [] e = "peer-addrs" -> Ev(e, <<<<"p", "q">>, <<"r", "s">>>>)
                                                              [] OTHER -> Ev(e, 0))])
Talk(x) == Write(x) \/ Read(x) \/ Issue(x) \/ TakeIn(x)
Next == steps' = steps + 1 /\ \E x \in Side : Talk(x) \/ Happens(x)
Spec == Init /\ [][Next]_vars
(******************************* properties *********************************)
Sound == \A x \in Side : ms[x].bad = ""
Moves(x) == Writes(U, ms[x]) # {} \/ (ch[x] # <<>> /\ Waits(ms[x])) \/ NeedsIssue(ms[x]) \/ ms[x].cand # <<>>
AtRest == \A x \in Side : ms[x].todo = <<>> /\ ms[x].evs = <<>> /\ ms[x].cand = <<>> /\ ch[x] = <<>>
Rests == (\A x \in Side : ~Moves(x)) =>
           /\ AtRest
           /\ Work(U, ms["i"].s.head) = Work(U, ms["n"].s.head)
           /\ \A x \in Side : Work(U, ms[x].head) = Work(U, ms[x].s.head)
Bounded == \A x \in Side : Len(ch[x]) <= 12
Quiets == steps <= MaxLen
View == <<[x \in Side |-> [ms[x] EXCEPT !.dels = <<>>, !.addr = IF @ = <<>> THEN @ ELSE <<Last(@)>>]], ch, n, steps>>
=============================================================================
