------------------------------- MODULE SimPad -------------------------------
(* Random long histories of the PAD.                                          *)
EXTENDS Pad, Json, Randomization
CONSTANTS Depth, N
VARIABLE hist
Names == {"n" \o ToString(i) : i \in 1..N}
Fake == [n \in Names |-> [m \in Names |-> IF n = m THEN 64 ELSE 3]]
Do(o) == hist' = Append(hist, o)
Some(S) == RandomSubset(1, IF Len(hist) >= 0 THEN S ELSE {})
SInit == \E c \in {1, 2, 5, 100} : /\ cap = c /\ lcp = <<>> /\ cur = 0 /\ tree = NoTree /\ ver = 0
                       /\ snaps = <<NoTree>> /\ loaded = <<0>> /\ resp = Nothing
                       /\ hist = <<[op |-> "New", cap |-> c]>>
SSet(S) == \E n \in Some(S), v \in Some({"k1", "k2", "k3", "k4", "k5"}) :
             Set(n, v) /\ Do([op |-> "Set", n |-> n, v |-> v])
Known == IF DOMAIN tree = {} THEN Names ELSE DOMAIN tree
\* the answers do not matter here, they are computed when the trace is validated
SLook(S, T) == \E n \in Some(S), e \in Some(T) :
             UNCHANGED padvars /\ Do([op |-> "Look", n |-> n, e |-> e])
SNext == \E w \in Some(1..100) :
  CASE w \in 1..40 -> SSet(Names)
    [] w \in 41..50 -> SSet(Known)
    [] w \in 51..65 -> SLook(Names, {cur})
    [] w \in 66..75 -> SLook(Known, {cur, PMax(0, cur - 1)})
    [] w \in 76..80 -> SLook(Names, 0..cur)
    [] OTHER -> Update /\ Do([op |-> "Upd"])
SSpec == SInit /\ [][SNext]_<<padvars, hist>>
PrintHist == Len(hist) # Depth \/ PrintT("HIST\t" \o ToJson(hist))
==============================================================================
