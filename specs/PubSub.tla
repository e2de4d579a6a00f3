-------------------------------- MODULE PubSub --------------------------------
(***************************************************************************)
(* The in-process topics (pkg/topic): publishers push batches to every     *)
(* subscription under a shared lock, subscriptions are queues read by Pop  *)
(* or by a forwarding goroutine (SubCh) with a closing handshake, closed   *)
(* subscriptions are dropped by a collector.  Every step that the lock or  *)
(* a queue mutex makes atomic is one action.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

CONSTANTS Pubs, NPub, Batch, Plain, Chans
Subs == Plain \cup Chans

VARIABLES
  st,      \* sub -> "no" | "open" | "closed"
  inMap,   \* subs the topic knows
  q,       \* sub -> its queue
  got,     \* sub -> what its reader received
  todo,    \* publisher -> subs it has still to push to in the current publication
  n,       \* publisher -> publications finished
  busy,    \* publishers inside Pub (they hold the read lock)
  expect,  \* <<publisher, k>> -> subs that were open when it began
  loop,    \* channel sub -> "check" | "pop" | "send" | "done"
  hand,    \* channel sub -> message held by its forwarder (or <<>>)
  closer   \* channel sub -> "none" | "asked" | "ok" | "done"
vars == <<st, inMap, q, got, todo, n, busy, expect, loop, hand, closer>>

Msgs(p, k) == [b \in 1..Batch |-> <<p, k, b>>]

Init ==
  /\ st = [s \in Subs |-> "no"]
  /\ inMap = {}
  /\ q = [s \in Subs |-> <<>>]
  /\ got = [s \in Subs |-> <<>>]
  /\ todo = [p \in Pubs |-> {}]
  /\ n = [p \in Pubs |-> 0]
  /\ busy = {}
  /\ expect = <<>>
  /\ loop = [s \in Chans |-> "none"]
  /\ hand = [s \in Chans |-> <<>>]
  /\ closer = [s \in Chans |-> "none"]

Subscribe(s) ==
  /\ st[s] = "no" /\ busy = {}
  /\ st' = [st EXCEPT ![s] = "open"]
  /\ inMap' = inMap \cup {s}
  /\ loop' = IF s \in Chans THEN [loop EXCEPT ![s] = "check"] ELSE loop
  /\ UNCHANGED <<q, got, todo, n, busy, expect, hand, closer>>

PubStart(p) ==
  /\ p \notin busy /\ n[p] < NPub
  /\ busy' = busy \cup {p}
  /\ todo' = [todo EXCEPT ![p] = inMap]
  /\ expect' = [x \in DOMAIN expect \cup {<<p, n[p] + 1>>} |->
                  IF x \in DOMAIN expect THEN expect[x] ELSE { s \in Subs : st[s] = "open" }]
  /\ UNCHANGED <<st, inMap, q, got, n, loop, hand, closer>>
\* the map is walked in no particular order; a closed queue swallows the push
PubPush(p, s) ==
  /\ p \in busy /\ s \in todo[p]
  /\ todo' = [todo EXCEPT ![p] = @ \ {s}]
  /\ q' = IF st[s] = "open" THEN [q EXCEPT ![s] = @ \o Msgs(p, n[p] + 1)] ELSE q
  /\ UNCHANGED <<st, inMap, got, n, busy, expect, loop, hand, closer>>
PubEnd(p) ==
  /\ p \in busy /\ todo[p] = {}
  /\ busy' = busy \ {p}
  /\ n' = [n EXCEPT ![p] = @ + 1]
  /\ UNCHANGED <<st, inMap, q, got, todo, expect, loop, hand, closer>>

Pop(s) ==
  /\ s \in Plain /\ st[s] = "open" /\ q[s] # <<>>
  /\ got' = [got EXCEPT ![s] = Append(@, Head(q[s]))]
  /\ q' = [q EXCEPT ![s] = Tail(@)]
  /\ UNCHANGED <<st, inMap, todo, n, busy, expect, loop, hand, closer>>
Close(s) ==
  /\ s \in Plain /\ st[s] = "open"
  /\ st' = [st EXCEPT ![s] = "closed"]
  /\ q' = [q EXCEPT ![s] = <<>>]
  /\ UNCHANGED <<inMap, got, todo, n, busy, expect, loop, hand, closer>>

\* forwarding goroutine of a channel subscription
LoopCheck(s) ==
  /\ loop[s] = "check"
  /\ IF closer[s] = "asked"
     THEN /\ loop' = [loop EXCEPT ![s] = "done"]
          /\ closer' = [closer EXCEPT ![s] = "ok"]
          /\ st' = [st EXCEPT ![s] = "closed"]
          /\ q' = [q EXCEPT ![s] = <<>>]
     ELSE /\ loop' = [loop EXCEPT ![s] = "pop"]
          /\ UNCHANGED <<closer, st, q>>
  /\ UNCHANGED <<inMap, got, todo, n, busy, expect, hand>>
LoopPop(s) ==
  /\ loop[s] = "pop"
  /\ IF q[s] = <<>> THEN loop' = [loop EXCEPT ![s] = "check"] /\ UNCHANGED <<q, hand>>
     ELSE /\ loop' = [loop EXCEPT ![s] = "send"]
          /\ hand' = [hand EXCEPT ![s] = Head(q[s])]
          /\ q' = [q EXCEPT ![s] = Tail(@)]
  /\ UNCHANGED <<st, inMap, got, todo, n, busy, expect, closer>>
\* rendezvous with the reader of C
Read(s) ==
  /\ s \in Chans /\ loop[s] = "send" /\ closer[s] = "none"
  /\ got' = [got EXCEPT ![s] = Append(@, hand[s])]
  /\ hand' = [hand EXCEPT ![s] = <<>>]
  /\ loop' = [loop EXCEPT ![s] = "pop"]
  /\ UNCHANGED <<st, inMap, q, todo, n, busy, expect, closer>>
CloseCh(s) ==
  /\ s \in Chans /\ st[s] = "open" /\ closer[s] = "none"
  /\ closer' = [closer EXCEPT ![s] = "asked"]
  /\ UNCHANGED <<st, inMap, q, got, todo, n, busy, expect, loop, hand>>
\* the closer throws away what the forwarder still offers
CloseDrain(s) ==
  /\ s \in Chans /\ closer[s] = "asked" /\ loop[s] = "send"
  /\ hand' = [hand EXCEPT ![s] = <<>>]
  /\ loop' = [loop EXCEPT ![s] = "pop"]
  /\ UNCHANGED <<st, inMap, q, got, todo, n, busy, expect, closer>>
CloseEnd(s) ==
  /\ s \in Chans /\ closer[s] = "ok"
  /\ closer' = [closer EXCEPT ![s] = "done"]
  /\ UNCHANGED <<st, inMap, q, got, todo, n, busy, expect, loop, hand>>

Collect ==
  /\ busy = {}
  /\ \E s \in inMap : st[s] = "closed"
  /\ inMap' = { s \in inMap : st[s] = "open" }
  /\ UNCHANGED <<st, q, got, todo, n, busy, expect, loop, hand, closer>>

Next == \/ \E s \in Subs : Subscribe(s) \/ Pop(s) \/ Close(s) \/ Read(s) \/ CloseCh(s) \/ CloseDrain(s) \/ CloseEnd(s)
        \/ \E s \in Chans : LoopCheck(s) \/ LoopPop(s)
        \/ \E p \in Pubs : PubStart(p) \/ PubEnd(p) \/ \E s \in Subs : PubPush(p, s)
        \/ Collect
Fair == /\ \A p \in Pubs : WF_vars(PubEnd(p)) /\ \A s \in Subs : WF_vars(PubPush(p, s))
        /\ \A s \in Chans : WF_vars(LoopCheck(s)) /\ WF_vars(LoopPop(s)) /\ WF_vars(Read(s))
                            /\ WF_vars(CloseDrain(s)) /\ WF_vars(CloseEnd(s))
        /\ \A s \in Plain : WF_vars(Pop(s))
Spec == Init /\ [][Next]_vars /\ Fair

(******************************* properties *********************************)
\* everything a sub has received or will receive
Held(s) == IF s \in Chans /\ hand[s] # <<>> THEN <<hand[s]>> ELSE <<>>
Stream(s) == got[s] \o Held(s) \o q[s]

OnceInOrder ==
  \A s \in Subs : LET x == Stream(s) IN
    /\ \A i, j \in DOMAIN x : i # j => x[i] # x[j]
    \* publications of one publisher in order
    /\ \A i, j \in DOMAIN x : (i < j /\ x[i][1] = x[j][1]) =>
          (x[i][2] < x[j][2] \/ (x[i][2] = x[j][2] /\ x[i][3] < x[j][3]))
    \* one publication contiguous
    /\ \A i \in DOMAIN x : (i < Len(x) /\ x[i][3] < Batch /\ st[s] = "open" /\ (s \in Chans => closer[s] = "none")) =>
          x[i + 1] = <<x[i][1], x[i][2], x[i][3] + 1>>
\* nothing is lost while the sub is open
Complete ==
  \A e \in DOMAIN expect : e[2] <= n[e[1]] =>
    \A s \in expect[e] : (st[s] = "open" /\ (s \in Plain \/ closer[s] = "none")) =>
      \A b \in 1..Batch : \E i \in DOMAIN Stream(s) : Stream(s)[i] = <<e[1], e[2], b>>
\* nothing published before is received
NotBefore ==
  \A s \in Subs : \A i \in DOMAIN Stream(s) : s \in expect[<<Stream(s)[i][1], Stream(s)[i][2]>>]
MapHoldsOpen == \A s \in Subs : st[s] = "open" => s \in inMap

ClosesEnd == \A s \in Chans : (closer[s] = "asked") ~> (closer[s] = "done")
PublishersEnd == \A p \in Pubs : (p \in busy) ~> (p \notin busy)
Delivered == \A s \in Plain : (q[s] # <<>>) ~> (q[s] = <<>>)
=============================================================================
