------------------------------- MODULE Ledger -------------------------------
(***************************************************************************)
(* The ledger of one basiccoin node: inventory of verified entities, head, *)
(* pending set, unspent outputs; the rules by which transactions, tree     *)
(* nodes and blocks enter the inventory; adoption of a candidate chain     *)
(* (rewind to the common ancestor, advance to the new head); mining        *)
(* templates; restart.  One operator per rule of the implementation, so    *)
(* that each refusal can be named.                                         *)
(*                                                                         *)
(* Everything is an operator on a universe U (immutable content of every   *)
(* entity that exists anywhere) and a node state s, so that the same text  *)
(* is used by the exhaustive model (LedgerMC), by the behaviour generator  *)
(* (LedgerGen) and by the validation of recorded runs (LedgerTrace).       *)
(*                                                                         *)
(* Amounts: a real amount a*2^62 + b (b small) is the number a*CapU + b.   *)
(* The map is linear, so sums, comparisons and equality agree with the     *)
(* real ones, and 2^64 becomes 4*CapU.                                     *)
(* Targets are exact: sixteen 16-bit digits.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CapU == 10000000
Cap  == 4 * CapU
Zero == "0"              \* id of the zero block

SumOf(f(_), q) == FoldLeft(LAMBDA a, x : a + f(x), 0, q)
SumOver(f(_), S) == FoldSet(LAMBDA x, a : a + f(x), 0, S)

(***************************** content of entities *************************)
InsVal(x)  == SumOf(LAMBDA i : i.val, x.ins)
OutsVal(x) == SumOf(LAMBDA o : o.val, x.outs)
CbVSize    == 112
VSize(x)   == 72 + SumOf(LAMBDA i : 48 + i.pk + i.sg, x.ins) + 40 * Len(x.outs)
Fee(x)     == InsVal(x) - OutsVal(x)
Consumes(x) == { <<i.tx, i.ind, i.val>> : i \in Range(x.ins) }
Creates(U, t) == { <<t, i - 1, U.txs[t].outs[i].val>> : i \in DOMAIN U.txs[t].outs }
Nobody == "z"   \* the zero hash may be paid, but no key has it
Owner(U, o) == U.txs[o[1]].outs[o[2] + 1].key

IsTx(U, id) == id \in DOMAIN U.txs
IsMk(U, id) == id \in DOMAIN U.mks
Kids(m) == IF m.l = m.r THEN <<m.l>> ELSE <<m.l, m.r>>

\* transactions under a tree node, in the order blocks use (level by level)
RECURSIVE Leaves(_, _)
Leaves(U, q) ==
  IF q = <<>> THEN <<>>
  ELSE IF IsTx(U, Head(q)) THEN <<Head(q)>> \o Leaves(U, Tail(q))
  ELSE Leaves(U, Tail(q) \o Kids(U.mks[Head(q)]))
TreeTxs(U, id) == Leaves(U, <<id>>)

RECURSIVE TreeSize(_, _)
TreeSize(U, id) ==
  IF IsTx(U, id) THEN VSize(U.txs[id])
  ELSE LET m == U.mks[id] IN
       IF m.l = m.r THEN TreeSize(U, m.l) ELSE TreeSize(U, m.l) + TreeSize(U, m.r)

(********************************** block tree *****************************)
RECURSIVE Height(_, _)
Height(U, b) == IF b = Zero THEN 0 ELSE 1 + Height(U, U.blks[b].prev)
RECURSIVE Work(_, _)
Work(U, b) == IF b = Zero THEN 0 ELSE U.blks[b].tg.w + Work(U, U.blks[b].prev)
RECURSIVE ChainTo(_, _)          \* sequence of blocks from the first to b
ChainTo(U, b) == IF b = Zero THEN <<>> ELSE Append(ChainTo(U, U.blks[b].prev), b)
RECURSIVE Ancestor(_, _, _)      \* n hops up, or Zero
Ancestor(U, b, n) == IF n = 0 \/ b = Zero THEN b ELSE Ancestor(U, U.blks[b].prev, n - 1)
RECURSIVE LastBlocks(_, _, _)    \* the last n blocks up to b, oldest first
LastBlocks(U, b, n) == IF n = 0 \/ b = Zero THEN <<>> ELSE Append(LastBlocks(U, U.blks[b].prev, n - 1), b)
RECURSIVE Meeting(_, _, _)       \* of two blocks of one height
Meeting(U, a, b) == IF a = b THEN a ELSE Meeting(U, U.blks[a].prev, U.blks[b].prev)
CommonAncestor(U, a, b) ==
  LET x == Height(U, a)
      y == Height(U, b)
  IN IF x > y THEN Meeting(U, Ancestor(U, a, x - y), b) ELSE Meeting(U, a, Ancestor(U, b, y - x))
RECURSIVE BlocksAbove(_, _, _)   \* blocks after anc up to and including b, oldest first
BlocksAbove(U, b, anc) == IF b = anc THEN <<>> ELSE Append(BlocksAbove(U, U.blks[b].prev, anc), b)
BlockTxs(U, b) == TreeTxs(U, U.blks[b].root)
ChainTxs(U, b) == FoldLeft(LAMBDA acc, c : acc \o BlockTxs(U, c), <<>>, ChainTo(U, b))

(******************************** targets ***********************************)
\* a target is [q |-> sixteen 16-bit digits, most significant first, w |-> expected work]
Digits == 65536
RECURSIVE QLtFrom(_, _, _)
QLtFrom(a, b, n) == IF n > 16 THEN FALSE
                    ELSE IF a[n] # b[n] THEN a[n] < b[n] ELSE QLtFrom(a, b, n + 1)
TLt(a, b) == QLtFrom(a.q, b.q, 1)
TEq(a, b) == a.q = b.q
\* a * n (n < 2^15); 17 digits, most significant first
QMul(q, n) == LET r == FoldRight(LAMBDA x, acc : [c |-> (x * n + acc.c) \div Digits,
                                                  o |-> <<(x * n + acc.c) % Digits>> \o acc.o],
                                 q, [c |-> 0, o |-> <<>>])
              IN <<r.c>> \o r.o
\* q / d (d < 2^15), rounded down, same number of digits
QDiv(q, d) == FoldLeft(LAMBDA acc, x : [r |-> (acc.r * Digits + x) % d,
                                        o |-> Append(acc.o, (acc.r * Digits + x) \div d)],
                       [r |-> 0, o |-> <<>>], q).o
\* 17 digits to 16 (the callers know that the first one is zero)
QCut(q) == Tail(q)
TOf(q) == [q |-> q, w |-> 0]
TMul4(a)  == TOf(QCut(QMul(a.q, 4)))
TDiv4(a)  == TOf(QDiv(a.q, 4))
TScale(a, n, d) == TOf(QCut(QDiv(QMul(a.q, n), d)))
TMin(a, b) == IF TLt(b, a) THEN b ELSE a
\* the easiest allowed target after a
TMaxNext(P, a) == IF TLt(P.maxT, a) THEN P.maxT ELSE TMin(TMul4(a), P.maxT)

(* The next target after block b. *)
NextTargetOf(U, b) ==
  LET P == U.P IN
  IF b = Zero THEN P.origT
  ELSE LET prev == U.blks[b].tg
           h == Height(U, b)
       IN IF (h + 1) % P.dp # 0 THEN prev
          ELSE LET firstH == IF h < P.dp THEN 1 ELSE (h \div P.dp) * P.dp
                   first  == Ancestor(U, b, h - firstH)
                   actual == U.blks[b].time - U.blks[first].time
                   desired == P.btt * (h - firstH)
                   mn == TDiv4(prev)
                   mx == TMaxNext(P, prev)
                   raw == IF actual >= 4 * desired THEN mx
                          ELSE IF 4 * actual <= desired THEN mn
                          ELSE TScale(prev, actual, desired)
                   lo1 == IF TLt(raw, mn) THEN mn ELSE raw
                   hi1 == IF TLt(mx, lo1) THEN mx ELSE lo1
               IN hi1

(********************************** node state ******************************)
EmptyState == [ktx |-> {}, kmk |-> {}, kbl |-> {Zero}, head |-> Zero,
               pend |-> {}, utxo |-> {}, inc |-> <<>>]

Known(s, id) == id \in s.ktx \/ id \in s.kmk

(*************************** entering the inventory *************************)
\* broken rules of a transaction given the known transactions (empty = accepted)
TxBroken(U, ktx, t) ==
  LET x == U.txs[t]
      P == U.P
      dup == Cardinality({ <<i.tx, i.ind>> : i \in Range(x.ins) }) # Len(x.ins)
      hasOrigin(i) == i.tx \in ktx /\ i.ind < Len(U.txs[i.tx].outs)
  IN (IF \E i \in Range(x.ins) : ~i.sig THEN {"sig"} ELSE {})
     \cup (IF VSize(x) > P.maxTx THEN {"txsize"} ELSE {})
     \cup (IF InsVal(x) >= Cap \/ OutsVal(x) >= Cap THEN {"overflow"} ELSE {})
     \cup (IF x.cb
           THEN (IF x.ins # <<>> THEN {"cbins"} ELSE {})
                \cup (IF Len(x.outs) # 1 THEN {"cbouts"} ELSE {})
                \cup (IF OutsVal(x) < P.reward THEN {"cbreward"} ELSE {})
           ELSE (IF InsVal(x) <= OutsVal(x) THEN {"surplus"} ELSE {}))
     \cup (IF dup THEN {"dupin"} ELSE {})
     \cup (IF \E i \in Range(x.ins) : ~hasOrigin(i) THEN {"origin"} ELSE {})
     \cup (IF \E i \in Range(x.ins) : hasOrigin(i) /\ (U.txs[i.tx].outs[i.ind + 1].key # i.key \/ i.key = Nobody)
           THEN {"owner"} ELSE {})
     \cup (IF \E i \in Range(x.ins) : hasOrigin(i) /\ U.txs[i.tx].outs[i.ind + 1].val # i.val
           THEN {"value"} ELSE {})

MkBroken(U, s, m) ==
  LET n == U.mks[m] IN
  IF ~Known(s, n.l) \/ ~Known(s, n.r) THEN {"mkchild"}
  ELSE (IF n.l # n.r /\ Range(TreeTxs(U, n.l)) \cap Range(TreeTxs(U, n.r)) # {} THEN {"overlap"} ELSE {})
       \cup (IF TreeSize(U, m) > U.P.maxBlk THEN {"blksize"} ELSE {})

Median(q) == LET n == Len(q)
                 o == SortSeq(q, LAMBDA a, b : a < b)
             IN IF n % 2 = 0 THEN (o[n \div 2] + o[n \div 2 + 1]) \div 2 ELSE o[(n + 1) \div 2]

\* broken rules of the time and the target of block b, whose ancestors are known
TimesBroken(U, b, now) ==
  LET k == U.blks[b]
      P == U.P
      h == Height(U, b)
      \* up to five preceding blocks
      anc == LastBlocks(U, k.prev, 5)
      times == [i \in DOMAIN anc |-> U.blks[anc[i]].time]
  IN (IF anc # <<>> /\ k.time <= Median(times) THEN {"median"} ELSE {})
     \cup (IF (h + 1) % P.dp = 0 /\
              LET first == Ancestor(U, k.prev, IF h + 1 = P.dp THEN h - 2 ELSE P.dp - 2)
              IN k.time <= U.blks[first].time
           THEN {"lastinperiod"} ELSE {})
     \cup (IF k.time > now + 3600 THEN {"future"} ELSE {})
     \cup (IF k.prev = Zero
           THEN (IF ~TEq(k.tg, P.origT) THEN {"target"} ELSE {})
           ELSE LET pt == U.blks[k.prev].tg IN
                IF h % P.dp = 0
                THEN (IF TLt(k.tg, TDiv4(pt)) THEN {"targetlow"} ELSE {})
                     \cup (IF TLt(TMaxNext(P, pt), k.tg) THEN {"targethigh"} ELSE {})
                ELSE (IF ~TEq(k.tg, pt) THEN {"target"} ELSE {}))

\* the earliest time of a child of block prev
EarliestOf(U, prev) ==
  IF prev = Zero THEN 0
  ELSE LET c == ChainTo(U, prev)
           h == Len(c) + 1
           anc == SubSeq(c, IF Len(c) > 5 THEN Len(c) - 4 ELSE 1, Len(c))
           md == Median([i \in DOMAIN anc |-> U.blks[anc[i]].time])
           first == U.blks[c[IF h + 1 = U.P.dp THEN 1 ELSE h + 1 - U.P.dp]].time
       IN IF (h + 1) % U.P.dp = 0 /\ first > md THEN first + 1 ELSE md + 1

BlkBroken(U, s, b, now) ==
  LET k == U.blks[b]
      P == U.P
  IN (IF ~k.pow THEN {"pow"} ELSE {}) \cup
     (IF k.root \notin s.kmk THEN {"root"} ELSE {}) \cup
     (IF k.prev \notin s.kbl THEN {"parent"} ELSE {}) \cup
     (IF k.root \notin s.kmk THEN {}
      ELSE LET ts == BlockTxs(U, b)
               xs == [i \in DOMAIN ts |-> U.txs[ts[i]]]
               tin == P.reward + SumOf(LAMBDA x : InsVal(x), xs)
               tout == SumOf(LAMBDA x : OutsVal(x), xs)
           IN (IF ~xs[1].cb THEN {"cbfirst"} ELSE {})
              \cup (IF \E i \in 2..Len(xs) : xs[i].cb THEN {"cbonly"} ELSE {})
              \cup (IF (tin - tout) % Cap # 0 THEN {"totals"} ELSE {})
              \cup (IF TreeSize(U, k.root) > P.maxBlk THEN {"blksize"} ELSE {})
              \cup (IF k.prev \in s.kbl /\ xs[1].minb # Height(U, b) THEN {"cbheight"} ELSE {})) \cup
     (IF k.prev \notin s.kbl THEN {} ELSE TimesBroken(U, b, now))

(***************************** moving the head ******************************)
\* Rules broken by applying transaction t of block b on state s
AdvTxBroken(U, s, b, t) ==
  LET x == U.txs[t] IN
  (IF Height(U, b) < x.minb THEN {"minblock"} ELSE {})
  \cup (IF Consumes(x) \ s.utxo # {} THEN {"unspent"} ELSE {})
  \cup (IF t \in DOMAIN s.inc THEN {"included"} ELSE {})

ApplyTx(U, s, b, t) ==
  [s EXCEPT !.pend = @ \ {t},
            !.utxo = (@ \ Consumes(U.txs[t])) \cup Creates(U, t),
            !.inc  = @ @@ (t :> b)]

\* result of applying a block: [s, broken]
Advance(U, s, b) ==
  LET r == FoldLeft(LAMBDA acc, t :
                 IF acc.broken # {} THEN acc
                 ELSE LET br == AdvTxBroken(U, acc.s, b, t)
                      IN IF br # {} THEN [acc EXCEPT !.broken = br]
                         ELSE [acc EXCEPT !.s = ApplyTx(U, acc.s, b, t)],
               [s |-> s, broken |-> {}], BlockTxs(U, b))
  IN [r EXCEPT !.s.head = b]

UnapplyTx(U, s, t) ==
  [s EXCEPT !.pend = @ \cup {t},
            !.utxo = (@ \ Creates(U, t)) \cup Consumes(U.txs[t]),
            !.inc  = [u \in (DOMAIN @) \ {t} |-> @[u]]]
Rewind(U, s) ==
  LET ts == BlockTxs(U, s.head)
      r == FoldLeft(LAMBDA acc, t : UnapplyTx(U, acc, t), s, Reverse(ts))
  IN [r EXCEPT !.head = U.blks[s.head].prev]
RECURSIVE RewindTo(_, _, _)
RewindTo(U, s, b) == IF s.head = b THEN s ELSE RewindTo(U, Rewind(U, s), b)

AdvanceAll(U, s, bs) ==
  FoldLeft(LAMBDA acc, b : IF acc.broken # {} THEN acc ELSE Advance(U, acc.s, b),
           [s |-> s, broken |-> {}], bs)

(*********************************** actions ********************************)
\* Submission of one transaction.  res is "new", "known" or "refused".
SubmitTx(U, s, t) ==
  IF t \in s.ktx
  THEN IF t \in s.pend \/ t \in DOMAIN s.inc
       THEN [s |-> s, res |-> "known", broken |-> {}]
       ELSE [s |-> [s EXCEPT !.pend = @ \cup {t}], res |-> "new", broken |-> {}]
  ELSE LET br == TxBroken(U, s.ktx, t) IN
       IF br # {} THEN [s |-> s, res |-> "refused", broken |-> br]
       ELSE [s |-> [s EXCEPT !.ktx = @ \cup {t}, !.pend = @ \cup {t}],
             res |-> "new", broken |-> {}]

\* Entering of the entities of an offered chain: stops at the first refusal.
TakeTxs(U, s, ts) ==
  FoldLeft(LAMBDA acc, t :
     IF acc.broken # {} \/ t \in acc.s.ktx THEN acc
     ELSE LET br == TxBroken(U, acc.s.ktx, t)
          IN IF br # {} THEN [acc EXCEPT !.broken = br]
             ELSE [acc EXCEPT !.s.ktx = @ \cup {t}, !.s.pend = @ \cup {t}],
     [s |-> s, broken |-> {}], ts)
TakeMks(U, r, ms) ==
  FoldLeft(LAMBDA acc, m :
     IF acc.broken # {} \/ m \in acc.s.kmk THEN acc
     ELSE LET br == MkBroken(U, acc.s, m)
          IN IF br # {} THEN [acc EXCEPT !.broken = br]
             ELSE [acc EXCEPT !.s.kmk = @ \cup {m}],
     r, ms)
TakeBlks(U, r, bs, now) ==
  FoldLeft(LAMBDA acc, b :
     IF acc.broken # {} \/ b \in acc.s.kbl THEN acc
     ELSE LET br == BlkBroken(U, acc.s, b, now)
          IN IF br # {} THEN [acc EXCEPT !.broken = br]
             ELSE [acc EXCEPT !.s.kbl = @ \cup {b}],
     r, bs)

\* Offer of a chain o = [head, txs, mks, blks].
Offer(U, s, o, now) ==
  LET r == TakeBlks(U, TakeMks(U, TakeTxs(U, s, o.txs), o.mks), o.blks, now)
  IN IF r.broken # {} THEN [s |-> r.s, moved |-> FALSE, broken |-> r.broken]
     ELSE IF o.head \notin r.s.kbl THEN [s |-> r.s, moved |-> FALSE, broken |-> {"unknownhead"}]
     ELSE IF Work(U, o.head) <= Work(U, r.s.head)
          THEN [s |-> r.s, moved |-> FALSE, broken |-> {"work"}]
     ELSE LET lca == CommonAncestor(U, r.s.head, o.head)
              a == AdvanceAll(U, RewindTo(U, r.s, lca), BlocksAbove(U, o.head, lca))
          IN IF a.broken # {} THEN [s |-> r.s, moved |-> FALSE, broken |-> a.broken]
             ELSE [s |-> a.s, moved |-> TRUE, broken |-> {}]

\* Stop and start on the same directory: the inventory and the head survive,
\* the pending set does not.
Restart(U, s) == [s EXCEPT !.pend = {}]
\* Start with a directory whose head file names h (crash in the middle of an adoption)
FoldOfChain(U, h) == AdvanceAll(U, EmptyState, ChainTo(U, h)).s
RestartAt(U, s, h) == [FoldOfChain(U, h) EXCEPT !.ktx = s.ktx, !.kmk = s.kmk, !.kbl = s.kbl]

(****************************** what a user sees ****************************)
UtxosOf(U, s, k) == { o \in s.utxo : Owner(U, o) = k }
Balance(U, s, k) == SumOver(LAMBDA o : o[3], UtxosOf(U, s, k))
PendSpends(U, s) == UNION { Consumes(U.txs[t]) : t \in s.pend }
FreeUtxosOf(U, s, k) == UtxosOf(U, s, k) \ PendSpends(U, s)
Confirms(U, s, t) == IF t \in DOMAIN s.inc THEN Height(U, s.head) - Height(U, s.inc[t]) + 1 ELSE 0
OwnersOf(U, s) == { Owner(U, o) : o \in s.utxo }

(******************************** templates *********************************)
Includable(U, s, t) ==
  LET x == U.txs[t] IN
  /\ x.minb <= Height(U, s.head) + 1
  /\ Consumes(x) \subseteq s.utxo
  /\ InsVal(x) > OutsVal(x)
\* fee rates are compared as fractions, to the precision of a double: next to 2^62 coins single ones do not count
RateFee(x) == IF Fee(x) < CapU \div 2 THEN Fee(x) ELSE ((Fee(x) + CapU \div 2) \div CapU) * CapU
RateLt(x, y) ==
  LET fx == RateFee(x) fy == RateFee(y) vx == VSize(x) vy == VSize(y)
  IN \/ fx \div vx < fy \div vy
     \/ fx \div vx = fy \div vy /\ (fx % vx) * vy < (fy % vy) * vx
RateLeq(x, y) == ~RateLt(y, x)
Conflict(x, y) == Consumes(x) \cap Consumes(y) # {}
\* problems of a template's transaction list ts (a sequence of ids)
TemplateBroken(U, s, ts) ==
  LET T == Range(ts)
      X(t) == U.txs[t]
      size == CbVSize + SumOver(LAMBDA t : VSize(X(t)), T)
      cand == { t \in s.pend : Includable(U, s, t) }
  IN (IF T \subseteq s.pend THEN {} ELSE {"tm-notpending"})
     \cup (IF \A t \in T : Includable(U, s, t) THEN {} ELSE {"tm-notincludable"})
     \cup (IF Cardinality(T) = Len(ts) /\ \A t \in T : \A u \in T \ {t} : ~Conflict(X(t), X(u))
           THEN {} ELSE {"tm-conflict"})
     \cup (IF size <= U.P.maxBlk THEN {} ELSE {"tm-size"})
     \cup (IF \A i \in 1..(Len(ts) - 1) : RateLeq(X(ts[i+1]), X(ts[i])) THEN {} ELSE {"tm-order"})
     \cup (IF \A c \in cand \ T :
                LET ahead == { t \in T : RateLeq(X(c), X(t)) }
                IN \/ \E t \in ahead : Conflict(X(c), X(t))
                   \/ CbVSize + SumOver(LAMBDA t : VSize(X(t)), ahead) + VSize(X(c)) > U.P.maxBlk
           THEN {} ELSE {"tm-greedy"})

(******************************** properties ********************************)
Supply(s) == SumOver(LAMBDA o : o[3], s.utxo)
ConservationOf(U, s) == Supply(s) = Height(U, s.head) * U.P.reward
\* the incremental state is the fold of the head chain
FoldOf(U, s) ==
  LET f == FoldOfChain(U, s.head) IN s.utxo = f.utxo /\ s.inc = f.inc
\* every input on the head chain consumed exactly one earlier-created, unspent output
NoDoubleSpendOf(U, s) ==
  LET ts == ChainTxs(U, s.head) IN
  /\ Cardinality(Range(ts)) = Len(ts)
  /\ Cardinality(UNION { Consumes(U.txs[t]) : t \in Range(ts) })
        = SumOver(LAMBDA t : Cardinality(Consumes(U.txs[t])), Range(ts))
  /\ \A i \in DOMAIN ts : \A o \in Consumes(U.txs[ts[i]]) :
        \E j \in 1..(i - 1) : o \in Creates(U, ts[j])
PendingPartitionOf(U, s) == s.pend \cap DOMAIN s.inc = {} /\ s.pend \subseteq s.ktx
InventoryClosedOf(U, s) ==
  /\ \A t \in s.ktx : TxBroken(U, s.ktx \ {t}, t) = {}
  /\ \A m \in s.kmk : Known(s, U.mks[m].l) /\ Known(s, U.mks[m].r)
  /\ \A b \in s.kbl \ {Zero} : U.blks[b].prev \in s.kbl /\ U.blks[b].root \in s.kmk
SignedOf(U, s) == \A t \in DOMAIN s.inc : \A i \in Range(U.txs[t].ins) :
                      i.sig /\ Owner(U, <<i.tx, i.ind>>) = i.key
NextTargetExistsOf(U, s) ==
  LET b == s.head h == Height(U, b) IN
  (h >= 2 /\ (h + 1) % U.P.dp = 0) =>
     LET firstH == IF h < U.P.dp THEN 1 ELSE (h \div U.P.dp) * U.P.dp
     IN U.blks[b].time > U.blks[Ancestor(U, b, h - firstH)].time
=============================================================================
