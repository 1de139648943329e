------------------------------ MODULE SetupCases ------------------------------
(* Initialisations of directories with any of the files in them; held up or   *)
(* killed at any file.                                                        *)
EXTENDS Setup, Json, Randomization, SequencesExt
VARIABLE c
Seq1(S) == SetToSeq(S)
Put(S, k) == [i \in 1..Cardinality(S) |-> [op |-> "Place", f |-> Seq1(S)[i], kind |-> k]]
I(w, x, u) == [op |-> "Init", who |-> w, cert |-> x, cwd |-> "other", umask |-> u]
Init ==
  \/ \E S \in SUBSET Owned("server", TRUE), x \in BOOLEAN : \E k \in RandomSubset(1, {"junk", "a"}), u \in RandomSubset(1, {"022", "000"}) :
       c = Put(S, k) \o <<I("server", x, u)>>
  \/ \E S \in SUBSET {"ccfg", "bcfg"}, w \in {"client", "bot"} : c = Put(S, "junk") \o <<I(w, FALSE, "022"), I(w, FALSE, "022")>>
  \/ \E f \in Owned("server", TRUE), k \in 1..2, m \in {"init", "user"} : c = <<[op |-> "Pause", who |-> "server", cert |-> TRUE, f |-> f, k |-> k, meanwhile |-> m]>>
  \/ \E w \in {"client", "bot"}, k \in 1..2 : c = <<[op |-> "Pause", who |-> w, cert |-> FALSE, f |-> Order(w, FALSE)[1], k |-> k, meanwhile |-> "user"]>>
  \/ \E f \in Owned("server", TRUE), k \in 1..3 : c = <<[op |-> "Crash", who |-> "server", cert |-> TRUE, f |-> f, k |-> k], I("server", TRUE, "022")>>
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
PrintCase == PrintT("HIST\t" \o ToJson(c))
=============================================================================
