------------------------------- MODULE SimConc -------------------------------
(* Random programs for concurrent clients of one server.  Epochs below zero   *)
(* are relative to the latest one the client has seen (-5).                   *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANTS SimNames, SimKeys, SimClients, Depth
VARIABLES hist, perms, hot

Some(S) == RandomSubset(1, IF Len(hist) >= 0 THEN S ELSE {})
Q(t, p, n, k, s, e) == [t |-> t, p |-> p, n |-> n, k |-> k, s |-> s, e |-> e]
Init == \E ps \in {<<TRUE, TRUE>>, <<TRUE, FALSE, TRUE>>, <<FALSE, TRUE, TRUE, FALSE>>} :
          perms = ps /\ hist = <<>> /\ hot = "n1"
Do(c, a, q) == hist' = Append(hist, [c |-> c, a |-> a, q |-> q]) /\ UNCHANGED perms
Writers == {a \in DOMAIN perms : perms[a]}
\* contention: most requests are about one name at a time
Next ==
  /\ Len(hist) < Depth
  /\ \E w \in Some(1..100), v \in Some(1..100), c \in Some(SimClients), k \in Some(SimKeys), m \in Some(SimNames) :
     \E n \in Some(IF v <= 70 THEN {hot} ELSE SimNames), a \in Some(DOMAIN perms), b \in Some(Writers), e \in Some({-7, -6, -5, -4, 0}), f \in Some({-6, -5, -3, 0}) :
       /\ hot' = IF v % 10 = 0 THEN m ELSE hot
       /\ CASE w <= 35 -> Do(c, b, Q(0, "Reg", n, k, 0, 0))
            [] w <= 40 -> Do(c, a, Q(0, "Reg", n, k, 0, 0))
            [] w <= 70 -> Do(c, a, Q(1, "Look", n, "", 0, 0))
            [] w <= 85 -> Do(c, a, Q(2, "LookEp", n, "", 0, e))
            [] w <= 97 -> Do(c, a, Q(3, "Mon", n, "", e, f))
            [] OTHER -> Do(c, a, Q(4, "STR", "n1", "", 0, 0))
Spec == Init /\ [][Next]_<<hist, perms, hot>>
PrintHist == Len(hist) # Depth \/ PrintT("HIST\t" \o ToJson(<<[perms |-> perms]>> \o hist))
==============================================================================
