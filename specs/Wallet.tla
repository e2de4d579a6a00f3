------------------------------- MODULE Wallet -------------------------------
(***************************************************************************)
(* Building transactions from the outputs a wallet owns.                   *)
(*                                                                         *)
(* An amount h*2^62 + l is written <<h, l>> with l small, so that amounts  *)
(* near the limits of a 64-bit counter fit.  A case has the outputs that   *)
(* are owned (value and key), what is to be paid (to keys, some of them    *)
(* our own), a fee rate n/d, and the largest size of a transaction.        *)
(*                                                                         *)
(* Mode "write" writes cases: all of a small domain, and those on the      *)
(* edges: the payment that leaves exactly nothing, or one more or less,    *)
(* after k inputs and their fee; the size limit that k inputs just meet.   *)
(* Mode "check" judges what the real code made of them.                    *)
(* Mode "model": the coin selection (richest outputs first) builds a right *)
(* transaction whenever there is any choice of outputs that does.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, SequencesExt, Randomization
CONSTANTS Mode, Pick, Part, Big
VARIABLES case, done

\* ------------------------------------------------------------- amounts
A(h, l) == <<h, l>>
N(l) == <<0, l>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Lt(a, b) == a # b /\ Le(a, b)
Limit == <<4, 0>>           \* 2^64
Fits(a) == Lt(a, Limit) /\ Le(N(0), a)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN N(0) ELSE Plus(s[1], Sum(Tail(s)))

\* ------------------------------------------------------------- sizes and fees
InSize == 48 + 91 + 72      \* with the longest signature
Size(nin, nout) == 72 + nin * InSize + nout * 40
\* a rate <<n, d>>; d = 0: more than any amount.  The network takes nothing for nothing.
FeeLo(rate, size) == IF rate[2] = 0 THEN <<8, 0>> ELSE IF rate[1] * size < rate[2] THEN N(1) ELSE N((rate[1] * size) \div rate[2])
FeeHi(rate, size) == IF rate[2] = 0 THEN <<9, 0>> ELSE N((rate[1] * size) \div rate[2] + 1)

\* ------------------------------------------------------------- cases
\* utxos: sequence of [val, key], keys 1..3 are ours, 7 is not
\* dests: sequence of [key, val], different keys
Out(c) == Sum([i \in DOMAIN c.dests |-> c.dests[i].val])
Ours(c) == { i \in DOMAIN c.utxos : c.utxos[i].key \in 1..3 }
Vals(c, s) == [i \in DOMAIN s |-> c.utxos[s[i]].val]
Sorted(c) == SetToSortSeq(DOMAIN c.utxos, LAMBDA i, j : Lt(c.utxos[j].val, c.utxos[i].val) \/ (c.utxos[i].val = c.utxos[j].val /\ i < j))
Top(c, k) == Sum(Vals(c, SubSeq(Sorted(c), 1, k)))
Balance(c, key) == LET own == SetToSeq({ i \in DOMAIN c.utxos : c.utxos[i].key = key }) IN Sum(Vals(c, own))
Total(c) == Sum([i \in DOMAIN c.utxos |-> c.utxos[i].val])
Richest(c) == { k \in { c.utxos[i].key : i \in DOMAIN c.utxos } :
                   \A j \in DOMAIN c.utxos : Le(Balance(c, c.utxos[j].key), Balance(c, k)) }
\* k of the owned outputs, whatever they are, that pay it
NOuts(c) == Len(c.dests) + 1
Enough(c, k) == /\ Size(k, NOuts(c)) <= c.maxtx
                /\ Le(Plus(Out(c), FeeLo(c.rate, Size(k, NOuts(c)))), Top(c, k))
\* there must be an answer: the wallet owns everything it is given, and it can pay
CanPay(c) == /\ \A i, j \in DOMAIN c.dests : i # j => c.dests[i].key # c.dests[j].key
             /\ Ours(c) = DOMAIN c.utxos
             /\ Fits(Out(c)) /\ Fits(Total(c))
             /\ \E k \in 1..Len(c.utxos) : Enough(c, k)
\* how many outputs fit one consolidation
Fit(c) == LET m == (c.maxtx - 72 - 40) \div InSize
          IN IF c.maxtx < 72 + 40 THEN 0 ELSE IF m > Len(c.utxos) THEN Len(c.utxos) ELSE m
CanMerge(c) == /\ Ours(c) = DOMAIN c.utxos /\ Fits(Total(c))
               /\ Len(c.utxos) > 1 /\ Fit(c) > 1
               /\ Lt(FeeLo(c.rate, Size(Fit(c), 1)), Top(c, Fit(c)))

\* ------------------------------------------------------------- what is right
\* r: [err, ins: sequence of [i (which of the outputs; 0: none of them), pk, sig], outs: sequence of [key, val], minb, cb, size]
In(c, r) == Sum([i \in DOMAIN r.ins |-> c.utxos[r.ins[i].i].val])
Paid(r) == Sum([i \in DOMAIN r.outs |-> r.outs[i].val])
Valid(c, r) ==
  /\ ~r.cb /\ r.minb = c.minb
  /\ r.ins # <<>>
  /\ \A i \in DOMAIN r.ins : r.ins[i].i \in Ours(c) /\ r.ins[i].pk /\ r.ins[i].sig
  /\ \A i, j \in DOMAIN r.ins : i # j => r.ins[i].i # r.ins[j].i
  /\ r.size <= c.maxtx
  /\ Fits(In(c, r)) /\ Fits(Paid(r))
  /\ Lt(Paid(r), In(c, r))
  /\ Le(FeeLo(c.rate, r.size), Minus(In(c, r), Paid(r)))
  /\ Le(Minus(In(c, r), Paid(r)), FeeHi(c.rate, Size(Len(r.ins), Len(r.outs))))
Outs(s) == { <<s[i].key, s[i].val>> : i \in DOMAIN s }
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Same(s, dests) == Len(s) = Len(dests) /\ Outs(s) = Outs(dests)
\* a destination named twice: the wallet may refuse it, or pay the sum
Twice(c) == \E i, j \in DOMAIN c.dests : i # j /\ c.dests[i].key = c.dests[j].key
To(s, key) == LET w == SetToSeq({ i \in DOMAIN s : s[i].key = key }) IN Sum([i \in DOMAIN w |-> s[w[i]].val])
SameSums(s, dests) == \A k \in { s[i].key : i \in DOMAIN s } \cup { dests[i].key : i \in DOMAIN dests } : To(s, k) = To(dests, k)
PaysTwice(c, r) == \/ \E i \in DOMAIN r.outs : r.outs[i].key \in Richest(c) /\ SameSums(Drop(r.outs, i), c.dests)
                   \/ SameSums(r.outs, c.dests)
Pays(c, r) == \/ Twice(c) /\ PaysTwice(c, r)
              \/ \E i \in DOMAIN r.outs : r.outs[i].key \in Richest(c) /\ Same(Drop(r.outs, i), c.dests)
              \/ Same(r.outs, c.dests)
Merges(c, r) == Len(r.outs) = 1 /\ r.outs[1].key \in 1..3 /\ Len(r.ins) >= Fit(c)
Right(c, r) ==
  IF r.panic THEN FALSE
  ELSE IF c.merge THEN IF r.err THEN ~CanMerge(c) ELSE Valid(c, r) /\ Merges(c, r)
  ELSE IF r.err THEN ~CanPay(c) ELSE Valid(c, r) /\ Pays(c, r)

\* The wallet program: x has the case x.c, what was answered to its question
\* (x.say), what it sent to the node (x.posts times, x.r), and what it showed.
Yes(x) == x.say \in {"y", "Y"}
RightRun(x) ==
  /\ ~x.r.panic /\ x.right /\ x.stable
  /\ x.posts <= 1
  /\ x.posts = 1 => x.asked /\ Yes(x)
  /\ IF Yes(x) THEN Right(x.c, x.r) ELSE (IF x.c.merge THEN CanMerge(x.c) ELSE CanPay(x.c)) => x.asked
  /\ x.posts = 1 => /\ x.fee = Minus(In(x.c, x.r), Paid(x.r))
                    /\ x.shown = IF x.c.merge THEN Paid(x.r) ELSE Out(x.c)
  /\ x.ok = (x.posts = 1 /\ x.node = "")

\* ------------------------------------------------------------- the cases
U(v, k) == [val |-> v, key |-> k]
D(k, v) == [key |-> k, val |-> v]
Case(u, d, rate, maxtx, merge) == [utxos |-> u, dests |-> d, rate |-> rate, maxtx |-> maxtx, minb |-> 7, merge |-> merge]
Rates == { <<1, 1>>, <<1, 2>>, <<3, 4>>, <<2, 1>>, <<25, 1>>, <<1, 1024>>, <<0, 1>>, <<1, 0>> }
Main == { <<1, 1>>, <<3, 2>> }
Huge == { <<1, 0>>, <<2, 0>>, <<4, -1>>, <<3, 5>> }
Small == { N(0), N(1), N(400), N(1000), N(100000) }
Owned(S, n) == UNION { [1..k -> { U(v, key) : v \in S, key \in {1, 2} }] : k \in 0..n }
Bigs == { 2000, 16384 }
\* everything of a small domain
Plainly == { Case(u, d, rate, m, FALSE) : u \in Owned(Small, 2), d \in { <<>>, <<D(9, N(0))>>, <<D(9, N(1))>>, <<D(9, N(600))>>, <<D(1, N(50))>>,
                 <<D(9, N(50)), D(8, N(60))>>, <<D(9, N(100)), D(2, N(100)), D(1, N(1))>> }, rate \in Rates, m \in {300, 600, 16384} }
\* near the largest numbers
Hugely == { Case(u, d, rate, 16384, FALSE) : u \in Owned(Huge \cup {N(1000)}, 2), rate \in { <<1, 1>>, <<1, 0>> },
             d \in { <<D(9, v)>> : v \in Huge \cup { <<4, -5>>, <<4, -300>>, N(1) } }
                   \cup { <<D(9, v), D(8, w)>> : v \in Huge, w \in { N(5), <<1, 0>>, <<2, 0>>, <<4, -1>>, <<3, 2>> } } }
\* the edges: k inputs and their fee leave just this much
Edge(u, nd, rate, k, delta, own) ==
  LET c0 == Case(u, [i \in 1..nd |-> D(9, N(0))], rate, 16384, FALSE)
      rest == Plus(Minus(Top(c0, k), FeeLo(rate, Size(k, nd + 1))), N(delta))
      d == [i \in 1..nd |-> IF i = 1 THEN D(IF own THEN 1 ELSE 9, Minus(rest, N(10 * (nd - 1)))) ELSE D(20 + i, N(10))]
  IN [c0 EXCEPT !.dests = d]
Edges == { Edge(u, nd, rate, k, delta, own) :
             u \in { [i \in 1..5 |-> U(N(v[i]), IF i % 2 = 0 THEN 1 ELSE 2)] : v \in { <<5000, 5000, 5000, 5000, 5000>>, <<9000, 700, 400, 300, 100>>, <<800, 800, 5000, 90, 700>>, <<1000, 2000, 3000, 4000, 4000>> } },
             nd \in 1..3, rate \in Main \cup { <<1, 2>>, <<7, 4>> }, k \in 1..5, delta \in -3..3, own \in BOOLEAN }
EdgesIn == { c \in Edges : \A i \in DOMAIN c.dests : Le(N(0), c.dests[i].val) }
\* the size limit that k inputs just meet
Tight == { [Edge(u, nd, <<1, 1>>, k, delta, FALSE) EXCEPT !.maxtx = Size(j, nd + 1) + e] :
             u \in { [i \in 1..5 |-> U(N(5000), IF i % 2 = 0 THEN 1 ELSE 2)] }, nd \in 1..2, k \in 1..5, delta \in {-1, 0, 1}, j \in 1..5, e \in {-1, 0, 1} }
\* as many as a wallet may have
Many == { [Edge([i \in 1..n |-> U(N(1000 + i), 1 + (i % 3))], nd, <<1, 1>>, k, delta, FALSE) EXCEPT !.maxtx = 16384] :
            n \in {70, 76, 77, 78, 90}, nd \in {1, 2}, k \in {1, 30, 70}, delta \in {-1, 0, 1} }
ManyAll == { c \in { Edge([i \in 1..n |-> U(N(1000 + i), 1 + (i % 3))], 1, <<1, 1>>, n, delta, FALSE) : n \in {70, 76, 77, 78, 90}, delta \in {-1, 0, 1} } : TRUE }
\* outputs of someone else among ours
Foreign == { Case(u, <<D(9, N(500))>>, <<1, 1>>, 16384, m) : u \in [1..2 -> { U(N(2000), k) : k \in {1, 3, 7} }], m \in BOOLEAN }
Merge == { Case(u, <<>>, rate, m, TRUE) : u \in Owned({N(0), N(1), N(250), N(267), N(268), N(533), N(534), N(535), N(5000)}, 2) \cup Owned({N(1), N(5000)}, 3), rate \in Rates, m \in {100, 322, 323, 533, 534, 535, 16384} }
MergeMany == { Case([i \in 1..n |-> U(N(v), 1 + (i % 3))], <<>>, rate, Size(j, 1) + e, TRUE) :
                 n \in {3, 20, 76, 77, 78, 100}, v \in {1, 210, 211, 212, 5000}, rate \in Main, j \in {2, 3, 75, 76, 77}, e \in {-1, 0, 1} }
MergeHuge == { Case(u, <<>>, <<1, 1>>, 16384, TRUE) : u \in Owned(Huge \cup {N(1)}, 3) }

Dups == { Case(<<U(N(5000), 1), U(N(3000), 2)>>, d, <<1, 1>>, 16384, FALSE) :
            d \in { <<D(a, N(v)), D(b, N(w)), D(9, N(x))>> : a, b \in {1, 9}, v, w, x \in {1, 70, 4000} }
                  \cup { <<D(9, <<2, 0>>), D(9, <<2, 0>>)>>, <<D(9, <<4, -1>>), D(9, N(2))>>, <<D(8, N(5)), D(8, N(5))>> } }
AtCli(S) == { c \in S : c.rate = <<1, 1>> /\ c.maxtx = 16384 /\ (c.merge \/ c.dests # <<>>) }
CliSets == [plain |-> AtCli(Plainly), huge |-> AtCli(Hugely), edges |-> AtCli(EdgesIn), many |-> AtCli(Many \cup ManyAll), foreign |-> AtCli(Foreign),
            merge |-> AtCli(Merge \cup { [c EXCEPT !.maxtx = 16384] : c \in MergeMany }), mergehuge |-> AtCli(MergeHuge), dups |-> Dups]
Sets == IF Part = "cli" THEN CliSets ELSE [plain |-> Plainly, huge |-> Hugely, edges |-> EdgesIn, tight |-> Tight, many |-> Many \cup ManyAll, foreign |-> Foreign,
         merge |-> Merge, mergemany |-> MergeMany, mergehuge |-> MergeHuge]
Parts == IF Part \in {"all", "cli"} THEN SetToSeq(DOMAIN Sets) ELSE <<Part>>
Chosen(S) == IF Cardinality(S) <= Pick THEN S ELSE RandomSubset(Pick, S)

\* ------------------------------------------------------------- judging
Log == ndJsonDeserialize(IOEnv.LOG)
Can(c) == IF c.merge THEN CanMerge(c) ELSE CanPay(c)
Judge(c, r) == [right |-> Right(c, r), valid |-> IF r.err \/ r.panic THEN FALSE ELSE Valid(c, r), can |-> Can(c)]

\* ------------------------------------------------------------- the selection
\* richest first, until it is enough
Greedy(c) ==
  LET ks == { k \in 1..Len(c.utxos) : Enough(c, k) }
      k == CHOOSE x \in ks : \A y \in ks : x <= y
      s == SubSeq(Sorted(c), 1, k)
      fee == FeeLo(c.rate, Size(k, NOuts(c)))
      change == Minus(Minus(Top(c, k), Out(c)), fee)
  IN IF ks = {} \/ ~Fits(Out(c)) THEN [err |-> TRUE, panic |-> FALSE]
     ELSE [err |-> FALSE, panic |-> FALSE, cb |-> FALSE, minb |-> c.minb, size |-> Size(k, NOuts(c)),
           ins |-> [i \in 1..k |-> [i |-> s[i], pk |-> TRUE, sig |-> TRUE]],
           outs |-> <<D(CHOOSE x \in Richest(c) : TRUE, change)>> \o c.dests]
\* any choice of outputs at all
AnyWay(c) == \E S \in SUBSET (DOMAIN c.utxos) :
                S # {} /\ Size(Cardinality(S), NOuts(c)) <= c.maxtx
                /\ Le(Plus(Out(c), FeeLo(c.rate, Size(Cardinality(S), NOuts(c)))), Sum(Vals(c, SetToSeq(S))))
ModelCases == { Case(u, d, rate, m, FALSE) : u \in Owned({N(100), N(350), N(700)}, 3), d \in { <<D(9, N(v))>> : v \in {1, 30, 37, 400, 500} }, rate \in Main, m \in {360, 600, 16384} }
              \cup (IF Big THEN EdgesIn \cup Tight ELSE { c \in EdgesIn : c.rate = <<3, 2>> })
ModelOK == Mode = "model" => LET c == case[1] IN
               /\ AnyWay(c) = (\E k \in 1..Len(c.utxos) : Enough(c, k))
               /\ Right(c, Greedy(c))
               /\ AnyWay(c) => ~Greedy(c).err

Init == done = FALSE /\ case \in (IF Mode = "model" THEN { <<c>> : c \in ModelCases } ELSE IF Mode \in {"check", "runs"} THEN { <<i>> : i \in DOMAIN Log } ELSE {<<>>})
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED case
        /\ CASE Mode = "write" -> ndJsonSerialize(IOEnv.LOG, FlattenSeq([i \in 1..Len(Parts) |-> SetToSeq(Chosen(Sets[Parts[i]]))]))
             [] Mode = "check" -> LET g == Judge(Log[case[1]].c, Log[case[1]].r)
                                  IN (~g.right \/ g.can) => PrintT(ToJson([k |-> "JUDGED", i |-> case[1]] @@ g))
             [] Mode = "runs" -> ~RightRun(Log[case[1]]) => PrintT(ToJson([k |-> "BADRUN", i |-> case[1]]))
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_<<case, done>>
=============================================================================
