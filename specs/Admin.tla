-------------------------------- MODULE Admin -------------------------------
(***************************************************************************)
(* The administrative interface: which requests may have an effect, and    *)
(* what each is answered.                                                  *)
(*                                                                         *)
(* A configuration says which groups of endpoints are served and what the  *)
(* password is (none: <<>>).  A request names an endpoint, in a plain or   *)
(* an odd way, with a method and headers; pws are the values of its "Pw"   *)
(* headers (header names do not depend on case, and HTTP takes blanks off  *)
(* the ends of a value), also says that the password is somewhere else in  *)
(* it.  Passwords are sequences of characters.                             *)
(*                                                                         *)
(* Mode "model": a server that works through requests, one after the       *)
(* other, with the gate Gate, which must keep Safe.                        *)
(* Mode "write": writes the configurations with all their requests.        *)
(* Mode "check": judges what the real server did with them.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC, SequencesExt
CONSTANTS Mode, Gate, Big
VARIABLES cfg, last, terms, due, seen

\* ------------------------------------------------------------- passwords
Chars == {"a", "A", "b"}
Words(n) == UNION { [1..k -> Chars] : k \in 0..n }
Flip(c) == CASE c = "a" -> "A" [] c = "A" -> "a" [] c = "b" -> "B" [] c = "B" -> "b" [] c = "s" -> "S" [] c = "e" -> "E" [] c = "0" -> "O" [] OTHER -> c
Blank(c) == c \in {" ", "\t"}
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ Blank(s[1]) THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ Blank(s[Len(s)]) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))

\* passwords of the kinds people choose; none begins or ends with a blank
Special == { <<"s", "e", "s", "a", "m", "e">>, <<"a", " ", "b">>, <<"0">>, <<"%", "6", "1">>, <<"p", ":", "w">>, <<"\"", "a", "\"">>,
             <<"a", ",", "a">>, <<"n", "u", "l", "l">>, <<"é", "ß">>, <<"a", ";", "b", "=", "c">>, <<"*">>,
             <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">> }
\* everything a little off p
Near(p) == { SubSeq(p, 1, k) : k \in 0..(Len(p) - 1) } \cup { SubSeq(p, k, Len(p)) : k \in 2..Len(p) }
           \cup { [p EXCEPT ![k] = Flip(@)] : k \in DOMAIN p } \cup { [p EXCEPT ![k] = "_"] : k \in DOMAIN p }
           \cup { [k \in DOMAIN p |-> Flip(p[k])], Reverse(p), p \o p, p \o <<"_">>, <<"_">> \o p, p \o <<",", " ">> \o p,
                  p \o <<p[1]>>, p \o <<"*">>, <<"*">>, <<"%", "6", "1">>, <<"\"">> \o p \o <<"\"">>, <<"p", "w", "=">> \o p,
                  <<"B", "e", "a", "r", "e", "r", " ">> \o p }
           \cup { p \o <<c>> : c \in {"0", " ", "\t"} }
           \cup { SubSeq(p, 1, k) \o SubSeq(p, k + 2, Len(p)) : k \in 0..(Len(p) - 1) }

\* ------------------------------------------------------------- requests
\* targets: ep is the endpoint that is meant, plain says that this is its name
Targets == { [t |-> "/admin/terminate", ep |-> "terminate", plain |-> TRUE],
             [t |-> "/admin/terminate?pw=x", ep |-> "terminate", plain |-> TRUE],
             [t |-> "/admin/terminate/", ep |-> "terminate", plain |-> FALSE],
             [t |-> "/admin//terminate", ep |-> "terminate", plain |-> FALSE],
             [t |-> "//admin/terminate", ep |-> "terminate", plain |-> FALSE],
             [t |-> "/ADMIN/terminate", ep |-> "terminate", plain |-> FALSE],
             [t |-> "/admin/%74erminate", ep |-> "terminate", plain |-> FALSE],
             [t |-> "/wallet/../admin/terminate", ep |-> "terminate", plain |-> FALSE],
             [t |-> "http://localhost/admin/terminate", ep |-> "terminate", plain |-> FALSE],
             [t |-> "/terminate", ep |-> "none", plain |-> TRUE],
             [t |-> "/admin", ep |-> "none", plain |-> TRUE],
             [t |-> "/admin/", ep |-> "none", plain |-> TRUE],
             [t |-> "/wallet/terminate", ep |-> "none", plain |-> TRUE],
             [t |-> "/wallet/head/height", ep |-> "wallet", plain |-> TRUE],
             [t |-> "/wallet/richlist?maxLen=3", ep |-> "wallet", plain |-> TRUE],
             [t |-> "/wallet/balance", ep |-> "wallet", plain |-> TRUE],
             [t |-> "/wallet/utxos", ep |-> "wallet", plain |-> TRUE],
             [t |-> "/wallet/tx", ep |-> "wallet", plain |-> TRUE],
             [t |-> "/wallet/tx/confirms", ep |-> "wallet", plain |-> TRUE],
             [t |-> "/wallet/tx/block", ep |-> "wallet", plain |-> TRUE],
             [t |-> "/wallet/merkle", ep |-> "wallet", plain |-> TRUE],
             [t |-> "/wallet/block", ep |-> "wallet", plain |-> TRUE],
             [t |-> "/version", ep |-> "version", plain |-> TRUE] }
Term == CHOOSE t \in Targets : t.t = "/admin/terminate"
Methods == {"GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "TRACE", "post", "Post", "TERMINATE"}
Names == {"Pw", "pw", "PW"}
Other == { <<"Password", "">>, <<"X-Pw", "">>, <<"Authorization", "">>, <<"Authorization", "Bearer ">>, <<"Cookie", "pw=">>, <<"X-Forwarded-For", "127.0.0.1 ">> }

\* pws: values under the name n; oth: <<name, what comes before the value, value>> of another header
Req(tg, m, n, pws, oth, extra) == [tg |-> tg, m |-> m, n |-> n, pws |-> pws, oth |-> oth, extra |-> extra]
Simple(tg, m, pws) == Req(tg, m, "Pw", pws, <<>>, "")
Extras == {"X-HTTP-Method-Override: POST", "X-Forwarded-For: 127.0.0.1", "Content-Type: application/x-www-form-urlencoded", "Connection: close"}

Requests(c) ==
  LET p == c.pw
      wrong == (IF p = <<>> THEN {<<"a">>} ELSE Near(p)) \cup (IF Big \/ Len(p) <= 2 THEN Words(3) ELSE Words(1))
      bad == IF p = <<"a">> THEN <<"b">> ELSE <<"a">>
  IN { Simple(Term, "POST", <<w>>) : w \in wrong }
     \cup { Simple(tg, m, v) : tg \in { t \in Targets : t.ep = "terminate" }, m \in Methods, v \in {<<>>, <<p>>, <<bad>>, << <<>> >>} }
     \cup { Simple(tg, m, v) : tg \in { t \in Targets : t.ep # "terminate" }, m \in {"GET", "POST", "HEAD"}, v \in {<<>>, <<bad>>} }
     \cup { Req(Term, "POST", n, <<v>>, <<>>, "") : n \in Names, v \in {p, bad} }
     \cup { Simple(Term, "POST", v) : v \in { <<bad, p>>, <<p, bad>>, <<p, p>>, <<bad, bad>>, << <<>>, p>>, <<p, <<>> >> } }
     \cup { Req(Term, m, "Pw", v, <<o[1], o[2], w>>, "") : m \in {"GET", "POST"}, v \in {<<>>, <<bad>>}, o \in Other, w \in {p, bad} }
     \cup { Req(Term, m, "Pw", v, <<>>, x) : m \in {"GET", "POST"}, v \in {<<>>, <<bad>>, <<p>>}, x \in Extras }

\* ------------------------------------------------------------- what is right
Right(c, q) == Len(q.pws) = 1 /\ Trim(q.pws[1]) = c.pw
\* the password is somewhere in the request
Has(c, q) == \/ \E i \in DOMAIN q.pws : Trim(q.pws[i]) = c.pw
             \/ q.oth # <<>> /\ Trim(q.oth[3]) = c.pw
On(c, q) == CASE q.tg.ep = "terminate" -> c.admin [] q.tg.ep = "wallet" -> c.wallet [] OTHER -> TRUE
Served(c) == c.admin \/ c.wallet
Ok2(st) == st >= 200 /\ st < 300
\* an answer and the effect it goes with, when it is open which
Either(st, eff) == (eff = 0 /\ ~Ok2(st)) \/ (eff = 1 /\ Ok2(st))

Fine(c, q, st, eff) ==
  IF ~On(c, q) THEN eff = 0 /\ (IF q.tg.plain THEN st = 404 ELSE ~Ok2(st))
  ELSE CASE q.tg.ep = "none" -> eff = 0 /\ ~Ok2(st)
         [] q.tg.ep = "wallet" -> eff = 0 /\ st \notin {401, 404} /\ (q.tg.t = "/wallet/head/height" /\ q.m = "GET" => st = 200)
         [] q.tg.ep = "version" -> eff = 0 /\ (q.m = "GET" => st = 200)
         [] q.tg.ep = "terminate" ->
              IF c.pw = <<>> THEN eff = 0 \/ q.m = "POST"
              ELSE IF ~Has(c, q) THEN eff = 0 /\ (IF q.tg.plain THEN st = 401 ELSE ~Ok2(st))
              ELSE IF q.m # "POST" THEN eff = 0 /\ ~Ok2(st)
              ELSE IF q.tg.plain /\ Right(c, q) /\ q.oth = <<>> THEN eff = 1 /\ Ok2(st)
              ELSE Either(st, eff)
\* whether an effect may come of it
May(c, q) == c.admin /\ q.tg.ep = "terminate" /\ (c.pw = <<>> \/ Has(c, q)) /\ q.m = "POST"
Must(c, q) == May(c, q) /\ q.tg.plain /\ c.pw # <<>> /\ Right(c, q) /\ q.oth = <<>>

\* ------------------------------------------------------------- configurations
Passwords == Words(IF Big THEN 3 ELSE 2) \cup Special
Configs == { [admin |-> TRUE, wallet |-> w, pw |-> p] : w \in {Big}, p \in Passwords }
           \cup { [admin |-> a, wallet |-> w, pw |-> p] : a \in BOOLEAN, w \in BOOLEAN, p \in {<<>>, <<"a">>, <<"s", "e", "s", "a", "m", "e">>} }
Written(c) == [cfg |-> c, reqs |-> SetToSeq({ [q |-> q, may |-> May(c, q), must |-> Must(c, q)] : q \in Requests(c) })]

\* ------------------------------------------------------------- the real server
Log == ndJsonDeserialize(IOEnv.LOG)
\* steps one by one, or together: then only the sum of their effects is known
FineStep(c, e) ==
  IF e.k = "one" THEN Fine(c, e.q, e.st, e.eff)
  ELSE IF e.k = "down" THEN ~Served(c)
  ELSE LET sure == Cardinality({ i \in DOMAIN e.qs : Ok2(e.sts[i]) /\ May(c, e.qs[i]) })
       IN /\ \A i \in DOMAIN e.qs : Fine(c, e.qs[i], e.sts[i], IF Must(c, e.qs[i]) THEN 1 ELSE 0)
          /\ e.eff = sure
Bad == { i \in DOMAIN Log : ~FineStep(Log[i].cfg, Log[i].e) }
Judged == [k |-> "JUDGED", of |-> Len(Log), bad |-> Cardinality(Bad),
           effects |-> Cardinality({ i \in DOMAIN Log : Log[i].e.k = "one" /\ Log[i].e.eff > 0 }),
           together |-> Cardinality({ i \in DOMAIN Log : Log[i].e.k = "many" }),
           unauthorised |-> Cardinality({ i \in DOMAIN Log : Log[i].e.k = "one" /\ Log[i].e.st = 401 }),
           first |-> IF Bad = {} THEN <<>> ELSE <<Log[CHOOSE i \in Bad : \A j \in Bad : i <= j]>>]

\* ------------------------------------------------------------- a server
Pass(c, q) ==
  LET v == IF q.pws = <<>> THEN <<>> ELSE Trim(q.pws[1])
  IN CASE Gate = "exact" -> v = c.pw
       [] Gate = "prefix" -> SubSeq(v, 1, IF Len(v) < Len(c.pw) THEN Len(v) ELSE Len(c.pw)) = SubSeq(c.pw, 1, IF Len(v) < Len(c.pw) THEN Len(v) ELSE Len(c.pw))
       [] Gate = "sticky" -> v = c.pw \/ seen
       [] Gate = "fold" -> [i \in DOMAIN v |-> IF v[i] = "A" THEN "a" ELSE v[i]] = [i \in DOMAIN c.pw |-> IF c.pw[i] = "A" THEN "a" ELSE c.pw[i]]
       [] Gate = "only-post" -> v = c.pw \/ q.m # "POST"
Do(q) ==
  LET gated == cfg.pw # <<>>
      st == IF ~On(cfg, q) \/ q.tg.ep = "none" \/ ~q.tg.plain THEN 404
            ELSE IF q.tg.ep = "terminate" /\ gated /\ ~Pass(cfg, q) THEN 401
            ELSE IF q.tg.ep = "terminate" /\ q.m # "POST" THEN 405
            ELSE IF q.tg.ep # "terminate" /\ q.m # "GET" THEN 405 ELSE 200
      eff == IF st = 200 /\ q.tg.ep = "terminate" THEN 1 ELSE 0
  IN /\ last' = [q |-> q, st |-> st, eff |-> eff]
     /\ terms' = terms + eff
     /\ due' = due + (IF May(cfg, q) THEN 1 ELSE 0)
     /\ seen' = (seen \/ eff = 1)
     /\ cfg' = cfg
SmallCfg == { [admin |-> a, wallet |-> w, pw |-> p] : a \in BOOLEAN, w \in BOOLEAN, p \in Words(2) }
SmallReq(c) == { Simple(tg, m, v) : tg \in { t \in Targets : t.t \in {"/admin/terminate", "/admin/terminate/", "/wallet/head/height", "/terminate"} },
                                   m \in {"GET", "POST"}, v \in {<<>>} \cup { <<w>> : w \in Words(2) } }
Init == /\ cfg \in (IF Mode = "model" THEN SmallCfg ELSE {[admin |-> TRUE, wallet |-> TRUE, pw |-> <<>>]})
        /\ last = [q |-> <<>>] /\ terms = 0 /\ due = 0 /\ seen = FALSE
Next == \/ Mode = "model" /\ terms < 2 /\ due < 2 /\ \E q \in SmallReq(cfg) : Do(q)
        \/ Mode = "write" /\ terms = 0 /\ terms' = 1 /\ UNCHANGED <<cfg, last, due, seen>>
           /\ ndJsonSerialize(IOEnv.LOG, SetToSeq({ Written(c) : c \in Configs }))
        \/ Mode = "check" /\ terms = 0 /\ terms' = 1 /\ UNCHANGED <<cfg, last, due, seen>> /\ PrintT(ToJson(Judged))
vars == <<cfg, last, terms, due, seen>>
Spec == Init /\ [][Next]_vars
\* every answer is right, and there was no more effect than was asked for with the password
Safe == Mode = "model" => (last.q # <<>> => Fine(cfg, last.q, last.st, last.eff)) /\ terms <= due
=============================================================================
