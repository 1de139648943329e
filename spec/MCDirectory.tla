---------------------------- MODULE MCDirectory ----------------------------
(* Exhaustive instance of Directory; prints its transitions as test cases.  *)
EXTENDS Directory, Json, IOUtils

CONSTANTS MaxEpoch, MCNames, MCKeys, MCDeadlines, MCCaps, Huge

VARIABLE op   \* the operation performed last (not part of the view)

MCBits == [n \in {"n1", "n2", "n3", "nx"} |->
             CASE n = "n1" -> <<0, 1, 0, 0, 0, 0>>
               [] n = "n2" -> <<0, 1, 0, 1, 0, 0>>
               [] n = "n3" -> <<1, 0, 0, 0, 0, 0>>
               [] n = "nx" -> <<0, 1, 1, 0, 0, 0>>]

MCInit == /\ \E c \in MCCaps : DirInit(c, 1, LcpOfBits(MCBits)) /\ op = [op |-> "New", cap |-> c, dl |-> 1]

Eps == 0..(cur + 1) \cup {Huge}

MCNext ==
  \/ \E n \in MCNames \cup {""}, k \in MCKeys \cup {""} :
       /\ (n = "" => k # "") /\ Register(n, k)
       /\ op' = [op |-> "Reg", n |-> n, k |-> k]
  \/ \E n \in MCNames \cup {"", "nx"} :
       KeyLookup(n) /\ op' = [op |-> "Look", n |-> n]
  \/ \E n \in MCNames \cup {"", "nx"}, e \in Eps :
       KeyLookupInEpoch(n, e) /\ op' = [op |-> "LookEp", n |-> n, e |-> e]
  \/ \E n \in MCNames \cup {"", "nx"}, s, e \in Eps :
       Monitor(n, s, e) /\ op' = [op |-> "Mon", n |-> n, s |-> s, e |-> e]
  \/ \E s, e \in Eps :
       STRHistory(s, e) /\ op' = [op |-> "Hist", s |-> s, e |-> e]
  \/ cur < MaxEpoch /\ Update /\ op' = [op |-> "Upd"]
  \/ \E d \in MCDeadlines : SetPolicies(d) /\ op' = [op |-> "Pol", dl |-> d]

MCSpec == MCInit /\ [][MCNext]_<<dirvars, op>>
MCView == <<cap, cur, tree, tbs, snaps, loaded, pol, ad>>

\* prints the state-changing transitions, from which test cases are made
PrintEdges ==
  IF UNCHANGED MCView THEN TRUE ELSE
  PrintT("EDGE\t" \o ToJson(MCView) \o "\t" \o ToJson(MCView') \o "\t" \o ToJson(op'))
=============================================================================
