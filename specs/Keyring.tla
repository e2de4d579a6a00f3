------------------------------- MODULE Keyring ------------------------------
(***************************************************************************)
(* The keys of a wallet.  A wallet has two files (main and dev), each with *)
(* an address of a node and keys.  A command reads the file of its side,   *)
(* works, and saves; it may report addresses.  Saving is done in steps     *)
(* (Atomic: a new file that then replaces the old one; otherwise the old   *)
(* one is emptied and written again), and the command may be killed        *)
(* between any two of its steps; a write may also fail.                    *)
(*                                                                         *)
(* file = [has, whole, keys]: it is there, it can be read, its keys.       *)
(* told: the addresses of generated keys that were reported to the user.   *)
(* kept: the keys that were in the file when the last command ended.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC
CONSTANTS Atomic,   \* saving replaces the file in one step
          TellLast, \* an address is reported after it is saved
          Overlap,  \* two commands may run at the same time
          Keys, Steps, Emit
VARIABLES file, tmp, told, kept, pc, mem, new, n, script

vars == <<file, tmp, told, kept, pc, mem, new, n, script>>
Procs == IF Overlap THEN {1, 2} ELSE {1}
None == [has |-> FALSE, whole |-> TRUE, keys |-> {}]
File(k) == [has |-> TRUE, whole |-> TRUE, keys |-> k]
Torn == [has |-> TRUE, whole |-> FALSE, keys |-> {}]
Sides == {"main", "dev"}

\* ---- import files: keys that are in the wallet already (own), others, and what is wrong with it
Bads == {"addr", "der", "junk", "missing", "torn"}
Imports == [own : 0..2, pool : SUBSET (101..103), twice : BOOLEAN, bad : {""} \cup Bads]

Init == /\ file = [s \in Sides |-> None] /\ tmp = [s \in Sides |-> None]
        /\ told = {} /\ kept = [s \in Sides |-> {}]
        /\ pc = [p \in Procs |-> "idle"] /\ mem = [p \in Procs |-> [side |-> "main", keys |-> {}, kind |-> ""]] /\ new = {} /\ n = 0 /\ script = <<>>

\* ---- commands.  A command that finds a file it cannot read stops at once
Start(p, s, kind, add) ==
  /\ pc[p] = "idle" /\ n < Steps
  /\ n' = n + 1
  /\ IF file[s].whole
     THEN /\ pc' = [pc EXCEPT ![p] = IF kind = "read" THEN "end" ELSE IF kind = "gen" /\ ~TellLast THEN "tell" ELSE "save1"]
          /\ mem' = [mem EXCEPT ![p] = [side |-> s, keys |-> file[s].keys \cup add, kind |-> kind, add |-> add]]
     ELSE UNCHANGED <<pc, mem>>
  /\ new' = new \cup add
  /\ UNCHANGED <<file, tmp, told, kept, script>>
Fresh == Keys \ new
Generate(p, s) == \E k \in Fresh : Start(p, s, "gen", {k})
Import(p, s) == \E K \in SUBSET Keys : K # {} /\ Start(p, s, "import", K)
Read(p, s) == Start(p, s, "read", {})

Tell(p) == /\ pc[p] = "tell" /\ told' = told \cup { <<mem[p].side, k>> : k \in mem[p].add }
           /\ pc' = [pc EXCEPT ![p] = IF TellLast THEN "end" ELSE "save1"]
           /\ UNCHANGED <<file, tmp, kept, mem, new, n, script>>
\* the file (or the one that will replace it) is opened, half written, written; then put in its place
Save(p) ==
  LET s == mem[p].side
      to == IF Atomic THEN tmp ELSE file
      After(f) == IF Atomic THEN tmp' = [tmp EXCEPT ![s] = f] /\ UNCHANGED file ELSE file' = [file EXCEPT ![s] = f] /\ UNCHANGED tmp
  IN \/ pc[p] = "save1" /\ After(Torn) /\ pc' = [pc EXCEPT ![p] = "save2"] /\ UNCHANGED <<told, kept, mem, new, n, script>>
     \/ pc[p] = "save2" /\ After(File(mem[p].keys)) /\ pc' = [pc EXCEPT ![p] = "save3"] /\ UNCHANGED <<told, kept, mem, new, n, script>>
     \/ pc[p] = "save3" /\ (IF Atomic THEN file' = [file EXCEPT ![s] = tmp[s]] /\ tmp' = [tmp EXCEPT ![s] = None] ELSE UNCHANGED <<file, tmp>>)
        /\ pc' = [pc EXCEPT ![p] = IF mem[p].kind = "gen" /\ TellLast THEN "tell" ELSE "end"] /\ UNCHANGED <<told, kept, mem, new, n, script>>
\* a step of saving fails: the command ends with an error
Fails(p) == /\ pc[p] \in {"save1", "save2"} /\ pc' = [pc EXCEPT ![p] = "idle"]
            /\ UNCHANGED <<file, tmp, told, kept, mem, new, n, script>>
End(p) == /\ pc[p] = "end" /\ pc' = [pc EXCEPT ![p] = "idle"]
          /\ kept' = [kept EXCEPT ![mem[p].side] = @ \cup (IF mem[p].kind = "read" THEN {} ELSE mem[p].add)]
          /\ UNCHANGED <<file, tmp, told, mem, new, n, script>>
Kill(p) == /\ pc[p] # "idle" /\ pc' = [pc EXCEPT ![p] = "idle"]
           /\ UNCHANGED <<file, tmp, told, kept, mem, new, n, script>>

\* ---- what users do, for the scripts
Add(x) == script' = Append(script, x)
\* (one at random, so that no kind of command crowds out the others)
Kinds == <<"generate", "generate", "generate", "import", "import", "import", "import", "connect", "connect", "read", "read">>
Faults == <<"", "", "", "", "nodir", "full">>
Prefix == <<"", "", "a", "3f">>
Nodes == <<"good", "good", "other", "wrongversion", "nobody">>
Reads == <<"version", "get-config-path", "balance", "balance", "utxos", "help", "nonsense", "generate help", "import", "send", "rich-list">>
Pick(q) == q[RandomElement(DOMAIN q)]
Play == /\ Emit /\ n < Steps /\ n' = n + 1
        /\ \E kind \in {Pick(Kinds)} :
           LET a == CASE kind = "generate" -> Pick(Prefix) [] kind = "connect" -> Pick(Nodes) [] kind = "read" -> Pick(Reads) [] OTHER -> ""
               imp == IF kind = "import" THEN <<[RandomElement(Imports) EXCEPT !.bad = Pick(<<"", "", "", @>>)]>> ELSE <<>>
           IN Add([cmd |-> kind, side |-> Pick(<<"main", "main", "dev">>), arg |-> a, crash |-> Pick(<<TRUE, FALSE>>),
                   fault |-> IF kind = "read" THEN "" ELSE Pick(Faults), imp |-> imp])
        /\ UNCHANGED <<file, tmp, told, kept, pc, mem, new>>
Next == IF Emit THEN Play ELSE
        \E p \in Procs : \/ \E s \in Sides : Generate(p, s) \/ Import(p, s) \/ Read(p, s)
                         \/ Tell(p) \/ Save(p) \/ Fails(p) \/ End(p) \/ Kill(p)
Spec == Init /\ [][Next]_vars

\* ---- what must hold
\* a key that a command has stored stays, whatever happens later
NoneLost == \A s \in Sides : file[s].whole /\ kept[s] \subseteq file[s].keys
\* an address that was reported is that of a stored key
NoneVain == \A x \in told : file[x[1]].whole /\ x[2] \in file[x[1]].keys
\* and the wallet never gets stuck
Readable == \A s \in Sides : file[s].whole
PrintIt == (Emit /\ n = Steps) => PrintT(ToJson([k |-> "SCRIPT", s |-> script]))
=============================================================================
