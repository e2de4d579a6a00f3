----------------------------- MODULE DifficultyMC -----------------------------
(***************************************************************************)
(* Block times and targets by themselves: every chain of a few blocks whose *)
(* times and targets the rules allow, for small times and targets.          *)
(* The rules have to leave a next target after every allowed chain (C12),   *)
(* the target handed to miners has to be one that the rules take, a chain   *)
(* can always be continued, and by no earlier time than the one the miner   *)
(* is given (C09, C11).                                                     *)
(* Variant names a rule or formula that is off:                             *)
(*   nolast    no rule for the last block of a period                       *)
(*   lastfirst that rule compares with the first block of all               *)
(*   nomin     the new target may fall to any part of the old one           *)
(*   nomax     the new target is not held below the network maximum         *)
(*   up        the new target is rounded up                                 *)
(*   median    the miner takes the time after its parent's for the earliest *)
(***************************************************************************)
EXTENDS Ledger, Json

CONSTANTS DP, MaxTime, MaxLen, MaxTarget, Orig, Btt, Variant, Emit
VARIABLES c     \* sequence of [time, t]

Small(n) == [q |-> [j \in 1..16 |-> IF j = 16 THEN n ELSE 0], w |-> 0]
Val(t) == t.q[16]
Name(j) == "b" \o ToString(j)
P == [dp |-> DP, btt |-> Btt, maxT |-> Small(MaxTarget), origT |-> Small(Orig)]
UOf(q) == [P |-> P,
           blks |-> FoldLeft(LAMBDA f, j : f @@ (Name(j) :> [prev |-> IF j = 1 THEN Zero ELSE Name(j - 1),
                                                           time |-> q[j].time, tg |-> Small(q[j].t)]),
                             <<>>, [j \in 1..Len(q) |-> j])]
Tip(q) == IF q = <<>> THEN Zero ELSE Name(Len(q))
Now == 0   \* nothing is in the future
Broken(q) ==
  TimesBroken(UOf(q), Tip(q), Now)
  \ (IF Variant = "nolast" \/ (Variant = "lastfirst" /\ q[Len(q)].time > q[1].time) THEN {"lastinperiod"} ELSE {})
\* the next target, exactly, by arithmetic on small numbers
Wanted(q) ==
  IF q = <<>> THEN Orig
  ELSE LET h == Len(q)
           old == q[h].t
           first == IF h < DP THEN 1 ELSE (h \div DP) * DP
           a == q[h].time - q[first].time
           d == Btt * (h - first)
           n == IF Variant = "up" THEN (old * a + d - 1) \div d ELSE (old * a) \div d
           lo == IF Variant = "nomin" THEN n ELSE IF n < old \div 4 THEN old \div 4 ELSE n
           hi == IF lo > 4 * old THEN 4 * old ELSE lo
       IN IF (h + 1) % DP # 0 THEN old
          ELSE IF Variant # "nomax" /\ hi > MaxTarget THEN MaxTarget ELSE hi

Init == c = <<>>
Next == /\ Len(c) < MaxLen
        /\ \E tm \in 0..MaxTime, t \in (IF (Len(c) + 1) % DP = 0 THEN 1..MaxTarget ELSE {IF c = <<>> THEN Orig ELSE c[Len(c)].t}) :
             LET q == Append(c, [time |-> tm, t |-> t]) IN Broken(q) = {} /\ c' = q
Spec == Init /\ [][Next]_c

(******************************** properties ********************************)
U == UOf(c)
Exists == NextTargetExistsOf(U, [head |-> Tip(c)])
\* what Ledger calls the next target is the formula
Formula == Exists => Val(NextTargetOf(U, Tip(c))) = Wanted(c)
Earliest == IF Variant = "median" THEN (IF c = <<>> THEN 0 ELSE c[Len(c)].time + 1) ELSE EarliestOf(U, Tip(c))
Child(tm, t) == TimesBroken(UOf(Append(c, [time |-> tm, t |-> t])), Name(Len(c) + 1), Now)
\* the miner's block is taken, an earlier one is not
Continues == Exists => Child(Earliest, Wanted(c)) = {}
NoSooner == Earliest = 0 \/ Child(Earliest - 1, Wanted(c)) # {}
\* exactly the targets from a quarter to four times are taken at a boundary
Steps == LET old == c[Len(c)].t IN
  (c # <<>> /\ (Len(c) + 1) % DP = 0) =>
     { t \in 0..MaxTarget : Child(Earliest, t) = {} } = { t \in 0..MaxTarget : old \div 4 <= t /\ t <= 4 * old }
PrintIt == (Emit /\ Len(c) = MaxLen) =>
  PrintT(ToJson([k |-> "SCRIPT", s |-> [c |-> c, first |-> [j \in 1..MaxLen |-> EarliestOf(U, IF j = 1 THEN Zero ELSE Name(j - 1))]]]))
=============================================================================
