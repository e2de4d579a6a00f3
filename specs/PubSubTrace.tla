----------------------------- MODULE PubSubTrace -----------------------------
(***************************************************************************)
(* Validation of recorded concurrent runs of the real topics.  A run gives *)
(* each call's interval on a common clock and what each subscriber read.   *)
(* The conditions are those under which the run is a behaviour of PubSub.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
\* a run: pubs = sequence of [a, b, n] (start, end, number of messages);
\* subs = sequence of [a, b, ca, full, got]: subscribed in [a,b], close begun at
\* ca (0: never), full: read to the end, got = sequence of <<publication, index>>
VARIABLES i, j
Pub(k) == Runs[i].pubs[k]

\* the publications in the order in which s saw their first messages
Firsts(s) == SelectSeq(s.got, LAMBDA m : m[2] = 1)
Bad(s) ==
  LET g == s.got
      seen == { g[x][1] : x \in DOMAIN g }
      f == Firsts(s)
      pos == [k \in seen |-> IF \E x \in DOMAIN f : f[x][1] = k THEN CHOOSE x \in DOMAIN f : f[x][1] = k ELSE 0]
      closed == s.ca # 0
  IN (IF \E k \in seen : k \notin DOMAIN Runs[i].pubs THEN {"foreign"} ELSE
      (IF Cardinality({ <<g[x][1], g[x][2]>> : x \in DOMAIN g }) # Len(g) THEN {"twice"} ELSE {})
      \cup (IF \E x \in DOMAIN g : ~ ((g[x][2] = 1 /\ (x = 1 \/ g[x-1][2] = Pub(g[x-1][1]).n))
                               \/ (x > 1 /\ g[x-1][1] = g[x][1] /\ g[x-1][2] = g[x][2] - 1))
            THEN {"torn"} ELSE {})
      \cup (IF g # <<>> /\ s.full /\ ~closed /\ g[Len(g)][2] # Pub(g[Len(g)][1]).n THEN {"cut"} ELSE {})
      \cup (IF \E k \in seen : Pub(k).b < s.a THEN {"before"} ELSE {})
      \cup (IF \E k, m \in seen : k # m /\ Pub(k).b < Pub(m).a /\ pos[k] > pos[m] THEN {"order"} ELSE {})
      \cup (IF s.full /\ \E k \in DOMAIN Runs[i].pubs : /\ k \notin seen
                                                       /\ Pub(k).a > s.b
                                                       /\ (~closed \/ Pub(k).b < s.ca)
            THEN {"lost"} ELSE {})
      \cup (IF \E k \in DOMAIN Runs[i].pubs : /\ k \notin seen /\ Pub(k).a > s.b
                                             /\ \E m \in seen : Pub(k).b < Pub(m).a
            THEN {"lost"} ELSE {}))

Init == i \in 1..Len(Runs) /\ j = 1
Next == /\ j <= Len(Runs[i].subs)
        /\ PrintT(ToJson([k |-> "SUB", run |-> Runs[i].name, j |-> j, bad |-> Bad(Runs[i].subs[j]),
                          n |-> Len(Runs[i].subs[j].got)]))
        /\ j' = j + 1 /\ i' = i
Spec == Init /\ [][Next]_<<i, j>>
=============================================================================
