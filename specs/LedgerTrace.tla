---------------------------- MODULE LedgerTrace ----------------------------
(***************************************************************************)
(* Validation of runs recorded from real basiccoin nodes against Ledger.   *)
(* Every scenario is one initial state; each step applies the model action *)
(* named by the recorded operation and compares every recorded observation *)
(* with what the model says a user must see.  Disagreements are printed    *)
(* with a kind (the rule or answer that differs) and the scenario goes on  *)
(* unless the two sides no longer agree about what was accepted.           *)
(***************************************************************************)
EXTENDS PeerWire, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, l, s, ph,   \* scenario, next step, node state, previous head
          pm             \* the node's side of the connection to its peer
tvars == <<i, l, s, ph, pm>>

U == [P |-> Traces[i].P, txs |-> Traces[i].txs, mks |-> Traces[i].mks, blks |-> Traces[i].blks]
Keys == Range(Traces[i].keys)
Has(r, f) == f \in DOMAIN r

AsSet(q) == Range(q)
Tagged(pre, S) == { pre \o ":" \o x : x \in S }

(* What the answers of a node in state st must be.                          *)
RichOK(UU, st, q) ==
  LET own == OwnersOf(UU, st)
      m == q.m
      n == Cardinality(own)
      want == IF q.n < n THEN q.n ELSE n
  IN /\ Cardinality(DOMAIN m) = want
     /\ DOMAIN m \subseteq own
     /\ \A k \in DOMAIN m : m[k] = Balance(UU, st, k)
     /\ \A k \in DOMAIN m : \A j \in own \ DOMAIN m : Balance(UU, st, j) <= m[k]

ObsKinds(UU, st, o) ==
  (IF Has(o, "height") /\ o.height # Height(UU, st.head) THEN {"height"} ELSE {})
  \cup (IF Has(o, "bal") /\ \E k \in DOMAIN o.bal : o.bal[k] # Balance(UU, st, k) THEN {"balance"} ELSE {})
  \cup (IF Has(o, "bal") /\ Has(o, "height")
           /\ SumOver(LAMBDA k : o.bal[k], DOMAIN o.bal) # o.height * UU.P.reward THEN {"supply"} ELSE {})
  \cup (IF Has(o, "utxo") /\ \E k \in DOMAIN o.utxo : AsSet(o.utxo[k]) # UtxosOf(UU, st, k) THEN {"utxo"} ELSE {})
  \cup (IF Has(o, "free") /\ \E k \in DOMAIN o.free :
             AsSet(o.free[k]) # { u \in UtxosOf(UU, st, k) : u \notin PendSpends(UU, st) } THEN {"free"} ELSE {})
  \cup (IF Has(o, "conf") /\ (\E t \in DOMAIN o.conf : t \in st.ktx /\ o.conf[t] # Confirms(UU, st, t)) THEN {"confirms"} ELSE {})
  \cup (IF Has(o, "conf") /\ st.ktx \cap (IF Has(o, "asked") THEN AsSet(o.asked) ELSE {}) # (DOMAIN o.conf) THEN {"confirms"} ELSE {})
  \cup (IF Has(o, "inc") /\ ((DOMAIN o.inc) # DOMAIN st.inc
                             \/ \E t \in DOMAIN o.inc : t \in DOMAIN st.inc /\ o.inc[t] # st.inc[t]) THEN {"incblock"} ELSE {})
  \cup (IF Has(o, "rich") /\ \E q \in AsSet(o.rich) : ~RichOK(UU, st, q) THEN {"rich"} ELSE {})
  \cup (IF Has(o, "tmpl") THEN
          LET m == o.tmpl
              want == NextTargetOf(UU, st.head)
          IN (IF m.head # st.head THEN {"tm-head"} ELSE IF ~(AsSet(m.txs) \subseteq DOMAIN UU.txs) THEN {"tm-notpending"} ELSE TemplateBroken(UU, st, m.txs))
             \cup (IF m.head = st.head /\ ~TEq(m.tg, want) THEN {"tm-target"} ELSE {})
        ELSE {})

\* what is read back under an id is what was accepted under it, with its size, height and work
MaxWork == 1073741824
ReadOK(UU, st, q) ==
  IF q.id \notin st.ktx \cup st.kmk \cup st.kbl THEN q.res = "none"
  ELSE /\ q.res = "same"
       /\ CASE q.id \in st.ktx -> q.n = VSize(UU.txs[q.id])
            [] q.id \in st.kmk -> q.n = TreeSize(UU, q.id)
            [] OTHER -> /\ q.n = Height(UU, q.id)
                        /\ (\A b \in Range(ChainTo(UU, q.id)) : UU.blks[b].tg.w < 16777216) =>
                             LET w == Work(UU, q.id) IN q.w = (IF w < MaxWork THEN w ELSE MaxWork)
HttpKinds(o) == IF Has(o, "http") /\ o.http # <<>> THEN { "http:" \o x : x \in AsSet(o.http) } ELSE {}
KnownKinds(UU, st, o, br) ==
  HttpKinds(o) \cup
  IF ~Has(o, "ktx") THEN {}
  ELSE LET extra == (AsSet(o.ktx) \ st.ktx) \cup (AsSet(o.kmk) \ st.kmk) \cup (AsSet(o.kbl) \ st.kbl)
           miss  == (st.ktx \ AsSet(o.ktx)) \cup (st.kmk \ AsSet(o.kmk)) \cup (st.kbl \ AsSet(o.kbl))
       IN (IF extra # {} THEN (IF br = {} THEN {"stored"} ELSE Tagged("stored", br)) ELSE {})
          \cup (IF miss # {} THEN {"notstored"} ELSE {})
          \cup (IF extra = {} /\ miss = {} /\ Has(o, "reads") /\ \E q \in AsSet(o.reads) : ~ReadOK(UU, st, q) THEN {"read"} ELSE {})

EvKinds(o, heads, txs) ==
  (IF Has(o, "heads") /\ o.heads # heads THEN {"ev-head"} ELSE {})
  \cup (IF Has(o, "txev") /\ o.txev # txs THEN {"ev-tx"} ELSE {})

(* One step: [s, kinds, fatal, note]                                        *)
\* (over HTTP nobody submits a coinbase)
StepTx(e) ==
  LET r == IF Traces[i].opts.rest /\ U.txs[e.t].cb THEN [s |-> s, res |-> "refused", broken |-> {"coinbase"}]
           ELSE SubmitTx(U, s, e.t)
      ok == e.obs.ret = "ok"
      acc == IF ok /\ r.res = "refused" THEN Tagged("tx-accepted", r.broken)
             ELSE IF ~ok /\ r.res # "refused" THEN {"tx-refused"} ELSE {}
      kn == KnownKinds(U, r.s, e.obs, r.broken)
      fatal == acc # {} \/ kn # {}
  IN [s |-> r.s, fatal |-> fatal, note |-> <<r.res, r.broken>>,
      kinds |-> acc \cup (IF acc = {} THEN kn ELSE {})
                \cup (IF fatal THEN {} ELSE EvKinds(e.obs, <<>>, IF r.res = "new" THEN <<e.t>> ELSE <<>>)
                                            \cup ObsKinds(U, r.s, e.obs)
                                            \cup (IF r.res = "new" /\ Has(e.obs, "miners") /\ ~Has(e.obs, "tmpl") THEN {"tm-none"} ELSE {}))]

StepOffer(e) ==
  LET r == Offer(U, s, e.o, e.now)
      moved == e.obs.heads # <<>>
      acc == IF moved /\ ~r.moved THEN Tagged("head-adopted", r.broken)
             ELSE IF ~moved /\ r.moved THEN {"head-refused"} ELSE {}
      kn == KnownKinds(U, r.s, e.obs, r.broken)
      fatal == acc # {} \/ kn # {}
  IN [s |-> r.s, fatal |-> fatal, note |-> <<IF r.moved THEN "moved" ELSE "kept", r.broken>>,
      kinds |-> acc \cup (IF acc = {} THEN kn ELSE {})
                \cup (IF fatal THEN {} ELSE EvKinds(e.obs, IF r.moved THEN <<e.o.head>> ELSE <<>>, <<>>)
                                            \cup ObsKinds(U, r.s, e.obs)
                                            \cup (IF r.moved /\ Has(e.obs, "miners") /\ ~Has(e.obs, "tmpl") THEN {"tm-none"} ELSE {}))
                \cup (IF acc # {} /\ Has(e.obs, "bal") /\ Has(e.obs, "height")
                         /\ SumOver(LAMBDA k : e.obs.bal[k], DOMAIN e.obs.bal) # e.obs.height * U.P.reward THEN {"supply"} ELSE {})]

(* A block announced by a real miner: it solves one of the templates carried *)
(* to it, pays its own key reward plus exactly the fees, and breaks no rule. *)
Solves(U_, b, tm, key) ==
  LET k == U_.blks[b]
      lv == TreeTxs(U_, k.root)
      cb == U_.txs[lv[1]]
      fees == SumOf(LAMBDA t : Fee(U_.txs[t]), tm.txs)
  IN /\ k.prev = tm.head
     /\ TEq(k.tg, tm.tg)
     /\ lv = <<lv[1]>> \o tm.txs
     /\ cb.cb /\ cb.ins = <<>> /\ Len(cb.outs) = 1
     /\ cb.minb = Height(U_, tm.head) + 1
     /\ cb.outs[1].key = key
     /\ cb.outs[1].val = U_.P.reward + fees
StepMined(e) ==
  IF e.mn.key = "silent" THEN [s |-> s, fatal |-> TRUE, note |-> <<"mined", {}>>, kinds |-> {"mn-silent"}]
  ELSE IF e.mn.unknown THEN [s |-> s, fatal |-> TRUE, note |-> <<"mined", {}>>, kinds |-> {"mn-unknown"}]
  ELSE LET r == Offer(U, s, e.o, e.now)
           so == StepOffer(e)
           one == Len(e.o.blks) = 1 /\ e.o.head = e.o.blks[1]
           ok == one /\ \E tm \in AsSet(e.mn.tmpls) : Solves(U, e.o.blks[1], tm, e.mn.key)
       IN [so EXCEPT !.kinds = @ \cup (IF r.broken \subseteq {"work"} THEN {} ELSE Tagged("mn-invalid", r.broken))
                                \cup (IF ok THEN {} ELSE {"mn-template"}),
                     !.note[1] = "mined-" \o @]

StepRestart(e) ==
  LET r == Restart(U, s)
      kn == KnownKinds(U, r, e.obs, {})
      k == (IF e.obs.head # r.head THEN {"re-head"} ELSE ObsKinds(U, r, e.obs)) \cup kn
  IN [s |-> r, fatal |-> k # {}, note |-> <<"restart", {}>>, kinds |-> Tagged("restart", k)]

(* Restarts on every prefix of the file operations of the previous step.    *)
StepCrash(e) ==
  LET one(a) ==
        IF a.obs.dead THEN {"crash-dead"}
        ELSE IF a.obs.head \notin {ph, s.head} \/ (a.last /\ a.obs.head # s.head) THEN {"crash-head"}
        ELSE LET st == [RestartAt(U, s, a.obs.head) EXCEPT !.ktx = @ \cap AsSet(a.obs.ktx)]
             IN ObsKinds(U, st, a.obs)
                \cup (IF a.last THEN KnownKinds(U, s, a.obs, {}) ELSE {})
                \cup (IF AsSet(a.obs.ktx) \subseteq s.ktx /\ AsSet(a.obs.kmk) \subseteq s.kmk
                         /\ AsSet(a.obs.kbl) \subseteq s.kbl THEN {} ELSE {"stored"})
                \cup (IF Has(a, "follow")
                         /\ a.follow # (IF Offer(U, RestartAt(U, s, a.obs.head), e.fo, e.now).moved THEN "moved" ELSE "kept")
                      THEN {"follow"} ELSE {})
  IN [s |-> s, fatal |-> FALSE, note |-> <<"crash", {}>>,
      kinds |-> Tagged("crash", UNION { one(a) : a \in AsSet(e.alts) })]

\* only look at the node again
StepLook(e) ==
  [s |-> s, fatal |-> FALSE, note |-> <<"look", {}>>, kinds |-> ObsKinds(U, s, e.obs) \cup KnownKinds(U, s, e.obs, {})]

(* A conversation with a peer: what the node says is what the machine says. *)
\* (what is not a value of the kind is recorded as a text)
Matches(w, t) == w.k = t.k /\ ToString(w.v) = ToString(t.v)
\* Configurations [m, q] are kept as a function from their text, as machines
\* waiting for different things cannot be compared.
\* (of the ledger only what differs between two ways to explain one run goes into the name)
Short(x) == <<x.head, x.pend, Cardinality(x.ktx), Cardinality(x.kmk), Cardinality(x.kbl)>>
Conf(m, q) == ToString(<<[m EXCEPT !.s = Short(@)], q>>) :> [m |-> m, q |-> q]
NoConf == <<>>
Over(F(_), cs) == FoldLeft(LAMBDA acc, k : F(cs[k]) @@ acc, NoConf, SetToSeq(DOMAIN cs))
\* all the ways the machine can have said token t, reading queued input q as needed
RECURSIVE Says(_, _, _, _)
Says(m, q, t, now) ==
  LET ws == Writes(U, m)
      evj == { j \in DOMAIN m.evs : m.todo = <<>> /\ t.k = "s" /\ t.v = CmdText(CommandOf(m.evs[j])) }
      first == { w \in ws : Matches(w, t) }
  IN IF m.bad # "" THEN NoConf
     ELSE (IF first # {} THEN Conf(AfterWrite(U, m, CHOOSE w \in first : TRUE, now), q) ELSE NoConf)
          @@ (IF evj # {} THEN Conf(LET n == StartIssue(m, Min(evj)) IN AfterWrite(U, n, Str(t.v), now), q) ELSE NoConf)
          @@ (IF ws = {} /\ evj = {} /\ q # <<>>
              THEN Says(AfterRead(U, m, Head(q), now), Tail(q), t, now)
              ELSE NoConf)
          @@ FoldLeft(LAMBDA acc, j : Says(Take(U, m, j, now), q, t, now) @@ acc, NoConf, SetToSeq(Takeable(m)))
\* ... and have come to rest
RECURSIVE Rest(_, _, _)
Rest(m, q, now) ==
  IF m.bad # "" THEN Conf(m, <<>>)
  ELSE (IF q # <<>> /\ Waits(m) THEN Rest(AfterRead(U, m, Head(q), now), Tail(q), now)
        ELSE IF m.cand = <<>> THEN Conf(m, q) ELSE NoConf)
       @@ FoldLeft(LAMBDA acc, j : Rest(Take(U, m, j, now), q, now) @@ acc, NoConf, SetToSeq(Takeable(m)))
Inside(m, t, now) ==
  CASE t.k = "tx" ->
         LET r == SubmitTx(U, m.s, t.v[1])
             n == [m EXCEPT !.s = r.s]
             g == IF r.res = "new" THEN News(n, [c |-> "new-tx", a |-> t.v[1]]) ELSE n
         IN IF (t.v[2] = "ok") # (r.res # "refused") THEN Fail(g, "submission") ELSE g
    [] t.k = "offer" ->
         LET r == Offer(U, m.s, t.v, now)
             n == [m EXCEPT !.s = r.s]
         IN IF r.moved THEN News(n, [c |-> "head", a |-> t.v.head]) ELSE n
    [] OTHER -> [m EXCEPT !.evs = Append(@, [c |-> t.k, a |-> t.v])]
Token(acc, t, now) ==
  IF acc.bad # "" THEN acc
  ELSE LET n == CASE t.d = "i" -> Over(LAMBDA c : Conf(c.m, Append(c.q, t)), acc.cs)
                  [] t.d = "o" -> Over(LAMBDA c : Says(c.m, c.q, t, now), acc.cs)
                  [] OTHER     -> Over(LAMBDA c : Conf(Inside(c.m, t, now), c.q), Over(LAMBDA d : Rest(d.m, d.q, now), acc.cs))
           ok == { k \in DOMAIN n : n[k].m.bad = "" }
       IN IF ok # {} THEN [acc EXCEPT !.cs = [k \in ok |-> n[k]], !.n = @ + 1]
          ELSE [acc EXCEPT !.bad = IF DOMAIN n = {} THEN "says " \o t.k ELSE n[CHOOSE k \in DOMAIN n : TRUE].m.bad]
DelsOf(q, k) == SelectSeq(q, LAMBDA d : d[1] = k)
GotOf(q, k) == SelectSeq(q, LAMBDA d : d.k = k)
Attacked == \E j \in DOMAIN Traces[i].steps : Traces[i].steps[j].op = "attack"
SameDels(m, o) ==
  /\ Len(m.dels) = Len(o)
  /\ \A k \in {"announced", "requested", "received"} :
       LET a == DelsOf(m.dels, k)
           b == GotOf(o, k)
       IN /\ Len(a) = Len(b)
          /\ \A j \in DOMAIN a :
               CASE k = "announced" -> a[j][2] = b[j].a
                 [] k = "received"  -> LET p == a[j][2] IN
                      /\ DOMAIN b[j].p = { p[x][1] : x \in DOMAIN p }
                      /\ \A x \in DOMAIN p : \E y \in x..Len(p) : p[y][1] = p[x][1] /\ b[j].p[p[x][1]] = p[y][2]
                 [] OTHER -> TRUE
StepConv(e) ==
  LET m0 == IF e.op = "connect"
            THEN [Machine(Traces[i].opts.peer, s, "E") EXCEPT
                   !.evs = IF Traces[i].opts.peer = "i" THEN <<[c |-> "sync-chain", a |-> ""]>>
                                                         ELSE <<[c |-> "announce-addr", a |-> e.addr]>>]
            ELSE [pm EXCEPT !.dels = <<>>, !.news = <<>>]
      a == FoldLeft(LAMBDA acc, t : Token(acc, t, e.now), [cs |-> Conf(m0, <<>>), bad |-> "", n |-> 0], e.toks)
      d == Over(LAMBDA c : Rest(c.m, c.q, e.now), a.cs)
      g == { c \in DOMAIN d : d[c].m.bad = "" /\ d[c].m.todo = <<>> /\ d[c].m.evs = <<>> }
      m == IF g # {} THEN d[CHOOSE c \in g : TRUE].m ELSE IF DOMAIN d # {} THEN d[CHOOSE c \in DOMAIN d : TRUE].m ELSE m0
      k == IF a.bad # "" THEN {"pw:" \o a.bad}
           ELSE IF e.conv.bad # "" THEN {"pw-" \o e.conv.bad}
           ELSE IF g = {} THEN {"pw-unfinished"}
           ELSE (IF Attacked \/ SameDels(m, e.conv.dels) THEN {} ELSE {"pw-delivered"})
                \cup (IF e.obs.head # m.s.head THEN {"pw-head"} ELSE ObsKinds(U, m.s, e.obs))
                \cup KnownKinds(U, m.s, e.obs, {})
  IN [s |-> m.s, m |-> m, fatal |-> k # {}, note |-> <<e.op, {}>>, kinds |-> k, at |-> a.n]

(* A peer that deviates from the protocol at some token.  Up to there the   *)
(* node says what its machine says.  Whatever came afterwards, its ledger   *)
(* has moved only by what the rules allow, announcing each move; it ends    *)
(* the connection when nothing more can come, forgets the peer, serves      *)
(* other peers meanwhile, and uses memory only for what was received.       *)
MaxAlloc == 48
\* the chain up to h from the first block that st knows
RECURSIVE PathTo(_, _)
PathTo(st, h) == IF h \in st.kbl THEN <<>> ELSE Append(PathTo(st, U.blks[h].prev), h)
Whole(st, h) ==
  LET bs == PathTo(st, h) IN
  [head |-> h, blks |-> bs,
   txs |-> FoldLeft(LAMBDA acc, b : acc \o BlockTxs(U, b), <<>>, bs),
   mks |-> FoldLeft(LAMBDA acc, b : acc \o Post(U, U.blks[b].root), <<>>, bs)]
\* where announced heads hs and transactions ts, in some interleaving, lead from st: a set of [s, news]
RECURSIVE Announced(_, _, _, _, _)
Announced(st, hs, ts, news, now) ==
  IF hs = <<>> /\ ts = <<>> THEN {[s |-> st, news |-> news]}
  ELSE (IF ts # <<>> /\ Head(ts) \in DOMAIN U.txs
        THEN LET r == SubmitTx(U, st, Head(ts)) IN
             IF r.res = "new" THEN Announced(r.s, hs, Tail(ts), Append(news, [c |-> "new-tx", a |-> Head(ts)]), now) ELSE {}
        ELSE {})
       \cup (IF hs # <<>> /\ Head(hs) \in DOMAIN U.blks
             THEN LET r == Offer(U, st, Whole(st, Head(hs)), now) IN
                  IF r.moved THEN Announced(r.s, Tail(hs), ts, Append(news, [c |-> "head", a |-> Head(hs)]), now) ELSE {}
             ELSE {})
\* ... and entities of a refused chain that were in order themselves are kept, unannounced
Lone(ts, ms, bs) == [head |-> "?", txs |-> ts, mks |-> ms, blks |-> bs]
RECURSIVE Absorb(_, _, _, _)
Absorb(st, o, not, now) ==
  LET next == { Offer(U, st, x, now).s : x \in
                { Lone(<<t>>, <<>>, <<>>) : t \in ((AsSet(o.ktx) \ not) \ st.ktx) \cap DOMAIN U.txs }
                \cup { Lone(<<>>, <<t>>, <<>>) : t \in (AsSet(o.kmk) \ st.kmk) \cap DOMAIN U.mks }
                \cup { Lone(<<>>, <<>>, <<t>>) : t \in (AsSet(o.kbl) \ st.kbl) \cap DOMAIN U.blks } } \ {st}
  IN IF next = {} THEN st ELSE Absorb(CHOOSE x \in next : TRUE, o, not, now)
After(e) ==
  LET early == Absorb(s, e.obs, AsSet(e.obs.txev), e.now)
      all == { [x EXCEPT !.s = Absorb(x.s, e.obs, {}, e.now)] :
               x \in UNION { Announced(st, e.obs.heads, e.obs.txev, <<>>, e.now) : st \in {s, early} } }
      bad(x) == (IF e.obs.head # x.s.head THEN {"at-head"} ELSE Tagged("at", ObsKinds(U, x.s, e.obs)))
                \cup Tagged("at", KnownKinds(U, x.s, e.obs, {}))
      g == { x \in all : bad(x) = {} }
      x == IF g # {} THEN CHOOSE y \in g : TRUE
           ELSE IF all # {} THEN CHOOSE y \in all : TRUE ELSE [s |-> s, news |-> <<>>]
  IN [s |-> x.s, m |-> [pm EXCEPT !.s = x.s, !.evs = @ \o x.news],
      kinds |-> (IF all = {} THEN {"at-moved"} ELSE bad(x))
                \cup (IF e.att.closed THEN {} ELSE {"at-notclosed"})
                \cup (IF e.att.freed THEN {} ELSE {"at-slot"})
                \cup (IF e.att.others = "" THEN {} ELSE {"at-others"})
                \cup (IF e.att.alloc > MaxAlloc THEN {"at-memory"} ELSE {})]
StepAttack(e) ==
  LET a0 == Machine(e.att.role, s, e.att.id)
      m0 == [a0 EXCEPT !.evs = IF e.att.role = "i" THEN <<[c |-> "sync-chain", a |-> ""], [c |-> "announce-addr", a |-> e.addr]>>
                               ELSE <<[c |-> "announce-addr", a |-> e.addr]>>]
      a == FoldLeft(LAMBDA acc, t : Token(acc, t, e.now), [cs |-> Conf(m0, <<>>), bad |-> "", n |-> 0],
                    IF e.att.hs THEN <<>> ELSE e.toks)
      x == After(e)
      k == (IF a.bad # "" THEN {"aw:" \o a.bad} ELSE {}) \cup x.kinds
  IN [s |-> x.s, m |-> x.m, fatal |-> k # {}, note |-> <<"attack:" \o e.att.how \o ":" \o e.att.then, {}>>, kinds |-> k, at |-> a.n]

\* a silent attacker has come to its end
StepAttend(e) ==
  LET x == After(e) IN
  [s |-> x.s, m |-> x.m, fatal |-> x.kinds # {}, note |-> <<"attend", {}>>, kinds |-> x.kinds]

(* What the wallet program shows when it is connected to the node.          *)
Ordered(q) == \A x \in 1..Len(q) - 1 : q[x].v >= q[x + 1].v
Once(q) == \A x, y \in DOMAIN q : x # y => q[x].id # q[y].id
AskBad(st, q) ==
  LET K == IF q.q = <<>> THEN AsSet(q.own) ELSE AsSet(q.q)
      A == AsSet(q.ans)
      Shows(F(_)) == { a.id : a \in A } = K /\ \A a \in A : F(a)
  IN IF q.panic THEN {"cli:crash"} ELSE IF ~q.same THEN {"cli:file"}
     ELSE IF q.bad # "" THEN (IF q.ok \/ { a \in A : a.to # "none" } # {} THEN {"cli:malformed"} ELSE {})
     ELSE IF CASE q.c = "balance" ->
                    IF K = {} THEN A = {}
                    ELSE q.ok /\ Once(q.ans) /\ Ordered(q.ans) /\ Shows(LAMBDA a : a.v = Balance(U, st, a.id))
                         /\ q.total = SumOver(LAMBDA k : Balance(U, st, k), K)
               [] q.c = "utxos" ->
                    IF K = {} THEN A = {}
                    ELSE LET held == UNION { UtxosOf(U, st, k) : k \in K } IN
                         q.ok /\ Len(q.ans) = Cardinality(held) /\ { <<a.id, a.i, a.v>> : a \in A } = held
               [] q.c = "confirms" -> q.ok /\ Shows(LAMBDA a : a.v = IF a.id \in st.ktx THEN Confirms(U, st, a.id) ELSE -1)
               [] q.c = "block" -> q.ok /\ Shows(LAMBDA a : a.to = IF a.id \in DOMAIN st.inc THEN st.inc[a.id] ELSE "-")
               [] q.c = "rich" ->
                    /\ Once(q.ans) /\ Ordered(q.ans)
                    /\ RichOK(U, st, [n |-> IF q.n < 0 THEN 10 ELSE q.n,
                                     m |-> [k \in { a.id : a \in A } |-> (CHOOSE a \in A : a.id = k).v]])
               [] OTHER ->
                    LET known == CASE q.c = "tx" -> st.ktx [] q.c = "mk" -> st.kmk [] OTHER -> st.kbl IN
                    /\ K \cap known # {} => q.ok
                    /\ Shows(LAMBDA a : a.to = IF a.id \in known THEN "same" ELSE "none")
          THEN {} ELSE {"cli:" \o q.c}
StepAsk(e) ==
  LET kn == KnownKinds(U, s, e.obs, {}) IN
  [s |-> s, fatal |-> kn # {}, note |-> <<"ask", {}>>,
   kinds |-> UNION { AskBad(s, q) : q \in AsSet(e.ask) } \cup kn \cup ObsKinds(U, s, e.obs) \cup EvKinds(e.obs, <<>>, <<>>)]

(* What it pays: from its own keys' free outputs, to whom it was told, with *)
(* the fee it showed, change only to itself.                                *)
MostIn == 48 + 91 + 72
MostSize(nin, nout) == 72 + nin * MostIn + nout * 40
FreeOf(st, p) == UNION { FreeUtxosOf(U, st, k) : k \in AsSet(p.own) }
Worth(S) == SumOver(LAMBDA o : o[3], S)
GivenTo(q, k) == SumOf(LAMBDA o : IF o.key = k THEN o.val ELSE 0, q)
Without(q, j) == SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))
SameGiven(a, b) == \A k \in { o.key : o \in AsSet(a) \cup AsSet(b) } : GivenTo(a, k) = GivenTo(b, k)
CanDo(st, p) ==
  LET F == FreeOf(st, p)
      n == Cardinality(F)
      m == IF p.c = "send" THEN Len(p.dests) + 1 ELSE 1
      size == MostSize(n, m)
  IN /\ size <= U.P.maxTx /\ size <= 16384 /\ n > (IF p.c = "send" THEN 0 ELSE 1)
     /\ Worth(F) > size + (IF p.c = "send" THEN SumOf(LAMBDA d : d.val, p.dests) ELSE 0)
PaidRight(st, p, t) ==
  LET x == U.txs[t] IN
  /\ ~x.cb
  /\ Consumes(x) \subseteq FreeOf(st, p) /\ Cardinality(Consumes(x)) = Len(x.ins)
  /\ x.minb <= Height(U, st.head) + 1
  /\ VSize(x) <= 16384
  /\ Fee(x) >= VSize(x) /\ Fee(x) <= MostSize(Len(x.ins), Len(x.outs)) + 1
  /\ p.fee = Fee(x)
  /\ IF p.c = "send"
     THEN /\ p.shown = SumOf(LAMBDA d : d.val, p.dests)
          /\ \/ SameGiven(x.outs, p.dests)
             \/ \E j \in DOMAIN x.outs : x.outs[j].key \in AsSet(p.own) /\ SameGiven(Without(x.outs, j), p.dests)
     ELSE /\ p.shown = OutsVal(x)
          /\ Len(x.outs) = 1 /\ x.outs[1].key \in AsSet(p.own)
          /\ MostSize(Len(x.ins) + 1, 1) > 16384 \/ Consumes(x) = FreeOf(st, p)
StepPay(e) ==
  LET p == e.pay
      yes == p.say \in {"y", "Y"}
      sent == Has(e, "t") /\ e.t # ""
      r == IF sent THEN SubmitTx(U, s, e.t) ELSE [s |-> s, res |-> "refused", broken |-> {}]
      c == (IF p.panic THEN {"cli:crash"} ELSE IF ~p.same THEN {"cli:file"} ELSE {})
           \cup (IF p.posts > 1 \/ p.odd \/ (p.posts = 1 /\ ~yes) THEN {"cli:sent"} ELSE {})
           \cup (IF sent /\ ~PaidRight(s, p, e.t) THEN {"cli:paid"} ELSE {})
           \cup (IF sent /\ r.res # "new" THEN {"cli:invalid"} ELSE {})
           \cup (IF p.ok # (sent /\ r.res # "refused") THEN {"cli:told"} ELSE {})
           \cup (IF CanDo(s, p) /\ ~(IF yes THEN sent ELSE p.asked) THEN {"cli:unpaid"} ELSE {})
      kn == KnownKinds(U, r.s, e.obs, {})
      fatal == kn # {} \/ c # {}
  IN [s |-> r.s, fatal |-> fatal, note |-> <<IF sent THEN r.res ELSE "unpaid", {}>>,
      kinds |-> c \cup (IF c = {} THEN kn ELSE {})
                \cup (IF fatal THEN {} ELSE EvKinds(e.obs, <<>>, IF r.res = "new" THEN <<e.t>> ELSE <<>>) \cup ObsKinds(U, r.s, e.obs))]

StepOf(e) ==
  IF Has(e, "obs") /\ e.obs.dead
  THEN LET r == CASE e.op = "tx" -> (SubmitTx(U, s, e.t).res # "refused")
                  [] e.op \in {"offer", "mined"} -> Offer(U, s, e.o, e.now).moved
                  [] e.op \in {"connect", "conv", "attack", "attend"} -> FALSE
                  [] OTHER -> TRUE
       IN [s |-> s, fatal |-> TRUE, note |-> <<"dead", {}>>,
           kinds |-> {IF r THEN "dead:good" ELSE "dead:bad"}]
  ELSE CASE e.op = "tx"      -> StepTx(e)
         [] e.op = "offer"   -> StepOffer(e)
         [] e.op = "restart" -> StepRestart(e)
         [] e.op = "crash"   -> StepCrash(e)
         [] e.op = "look"    -> StepLook(e)
         [] e.op = "mined"   -> StepMined(e)
         [] e.op \in {"connect", "conv"} -> StepConv(e)
         [] e.op = "attack"  -> StepAttack(e)
         [] e.op = "attend"  -> StepAttend(e)
         [] e.op = "ask"     -> StepAsk(e)
         [] e.op = "pay"     -> StepPay(e)

Init == /\ i \in 1..Len(Traces)
        /\ l = 1
        /\ s = EmptyState
        /\ ph = Zero
        /\ pm = Machine("i", EmptyState, "E")

Next == LET steps == Traces[i].steps IN
  /\ l <= Len(steps)
  /\ \E r \in {StepOf(steps[l])} :          \* (evaluated once, unlike a LET of an action)
     /\ PrintT(ToJson([k |-> "STEP", sc |-> Traces[i].name, l |-> l, op |-> steps[l].op,
                       note |-> r.note[1], broken |-> r.note[2], bad |-> r.kinds, via |-> steps[l].via,
                       at |-> IF Has(r, "at") THEN r.at ELSE 0]))
     /\ s' = r.s
     /\ pm' = IF Has(r, "m") THEN r.m
              ELSE CASE r.note[1] = "new" -> News([pm EXCEPT !.s = r.s], [c |-> "new-tx", a |-> steps[l].t])
                     [] r.note[1] = "moved" -> News([pm EXCEPT !.s = r.s], [c |-> "head", a |-> steps[l].o.head])
                     [] OTHER -> [pm EXCEPT !.s = r.s]
     /\ ph' = IF steps[l].op \in {"look", "crash", "ask"} THEN ph ELSE s.head
     /\ l' = IF r.fatal THEN Len(steps) + 1 ELSE l + 1
     /\ i' = i

Spec == Init /\ [][Next]_tvars

\* the model's own properties, evaluated on every state of every real run
Conservation == ConservationOf(U, s)
NoDoubleSpend == NoDoubleSpendOf(U, s)
StateIsFold == FoldOf(U, s)
PendingPartition == PendingPartitionOf(U, s)
Signed == SignedOf(U, s)
NextTargetExists == NextTargetExistsOf(U, s)
=============================================================================
