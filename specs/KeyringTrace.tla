---------------------------- MODULE KeyringTrace ----------------------------
(***************************************************************************)
(* Recorded runs of the wallet program against Keyring: what was in its    *)
(* files before and after every command, what it reported, and what would  *)
(* be there had it been killed between any two of its file operations.     *)
(*                                                                         *)
(* f (a file) = [has, whole, good, addr, keys]: good: every key can be     *)
(* used and is stored under its own address; keys: in order.               *)
(* step = [cmd, side, arg, fault, imp, ok (it reported success), told (the *)
(* addresses it reported), asked (whose balance it asked for), before,     *)
(* after: side -> f, alts: sequence of [at, main, dev, works], killed]     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC, SequencesExt
VARIABLES run, i, keysOf

Log == ndJsonDeserialize(IOEnv.LOG)
S(f) == ToSet(f.keys)
Sound(f) == f.has => f.whole /\ f.good /\ Len(f.keys) = Cardinality(S(f))
OtherSide(s) == IF s = "main" THEN "dev" ELSE "main"
Same(f, g) == f.keys = g.keys /\ (f.has => g.has /\ f.addr = g.addr)
\* nothing more can be asked of a file in which there was nothing to lose
Bare(f) == f.keys = <<>>

GoodImport(x) == x.imp[1].bad = ""
Given(x) == ToSet(x.given)
Told(x) == ToSet(x.told)

StepOK(x) ==
  LET s == x.side  b == x.before[s]  a == x.after[s]  ob == x.before[OtherSide(s)]  oa == x.after[OtherSide(s)]
  IN /\ Sound(a) /\ Sound(oa)
     /\ Same(ob, oa)
     /\ S(b) \subseteq S(a)
     /\ CASE x.cmd = "generate" ->
               /\ Told(x) \subseteq S(a)
               /\ x.ok => Len(x.told) = 1 /\ Told(x) \cap S(b) = {} /\ S(a) = S(b) \cup Told(x) /\ x.fits
               /\ Cardinality(S(a) \ S(b)) <= 1
               /\ (x.fault = "" /\ ~x.killed) => x.ok
          [] x.cmd = "import" ->
               /\ S(a) \in {S(b), S(b) \cup Given(x)}
               /\ ~GoodImport(x) => ~x.ok /\ S(a) = S(b)
               /\ x.ok => S(a) = S(b) \cup Given(x)
               /\ (x.fault = "" /\ GoodImport(x) /\ ~x.killed) => x.ok
          [] x.cmd = "connect" ->
               /\ S(a) = S(b)
               /\ x.ok => a.addr = x.addr
               /\ ~x.ok /\ b.has /\ x.fault = "" /\ ~x.killed => a.addr = b.addr
               /\ (x.fault = "" /\ ~x.killed) => x.ok = x.reach
          [] x.cmd = "read" -> Same(b, a)
     /\ (b.has => a.addr \in {b.addr, x.addr})
     /\ ToSet(x.asked) \subseteq S(b)
     /\ (x.cmd = "read" /\ x.arg \in {"balance", "utxos"} /\ x.ok) => ToSet(x.asked) = S(b)
     \* killed at any point: what was there before still is, and nothing else than what comes
     /\ \A j \in DOMAIN x.alts :
           LET m == x.alts[j]
           IN \A q \in {"main", "dev"} : ~Bare(x.before[q]) =>
                /\ m.works
                /\ m[q].has /\ Sound(m[q])
                /\ S(x.before[q]) \subseteq S(m[q]) /\ S(m[q]) \subseteq S(x.after[q])
                /\ m[q].addr \in {x.before[q].addr, x.after[q].addr}

Init == run \in DOMAIN Log /\ i = 0 /\ keysOf = [main |-> {}, dev |-> {}]
Steps == Log[run].steps
Next == /\ i < Len(Steps) /\ i' = i + 1 /\ run' = run
        /\ LET x == Steps[i + 1]
           IN /\ keysOf' = [q \in {"main", "dev"} |-> S(x.after[q])]
              /\ IF \A q \in {"main", "dev"} : keysOf[q] = S(x.before[q])
                 THEN StepOK(x) \/ PrintT(ToJson([k |-> "BAD", run |-> run, i |-> i + 1, x |-> x]))
                 ELSE PrintT(ToJson([k |-> "BAD", run |-> run, i |-> i + 1, x |-> [cmd |-> "the files changed by themselves"]]))
Spec == Init /\ [][Next]_<<run, i, keysOf>>
=============================================================================
