------------------------------ MODULE MCRawTree ------------------------------
(* Small instance of RawTree (exhaustive), and random histories of it.        *)
EXTENDS RawTree, Json, Randomization
CONSTANTS Names, Vals, MaxVer, MaxTrees, Depth
VARIABLE hist
MCBits == [n \in {"n1", "n2", "n3", "n4"} |->
             CASE n = "n1" -> <<0, 1, 0>> [] n = "n2" -> <<0, 1, 1>>
               [] n = "n3" -> <<1, 0, 0>> [] n = "n4" -> <<0, 0, 1>>]
MCInit == RawInit(LcpOfBits(MCBits)) /\ hist = <<>>
MCNext == /\ \/ \E t \in DOMAIN trees, n \in Names, v \in Vals : ver < MaxVer /\ Set(t, n, v)
             \/ \E t \in DOMAIN trees : Len(trees) < MaxTrees /\ Clone(t)
             \/ \E t \in DOMAIN trees, n \in Names : Get(t, n)
          /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_<<rawvars, hist>>
MCView == <<trees, ver>>

Some(S) == RandomSubset(1, IF Len(hist) >= 0 THEN S ELSE {})
Do(o) == hist' = Append(hist, o)
SNames == {"n" \o ToString(i) : i \in 1..12}
SInit == lcp = <<>> /\ trees = <<NoTree>> /\ ver = 0 /\ resp = Nothing /\ hist = <<[op |-> "New"]>>
SSet(S) == \E t \in Some(DOMAIN trees), n \in Some(S), v \in Some({"k1", "k2", "k3"}) :
             Set(t, n, v) /\ Do([op |-> "Set", t |-> t, n |-> n, v |-> v])
SNext == \E w \in Some(1..100) :
  CASE w \in 1..45 -> SSet(SNames)
    [] w \in 46..50 /\ Len(trees) < 5 -> \E t \in Some(DOMAIN trees) : Clone(t) /\ Do([op |-> "Clone", t |-> t])
    [] OTHER -> \E t \in Some(DOMAIN trees), n \in Some(SNames) :
                  UNCHANGED rawvars /\ Do([op |-> "Get", t |-> t, n |-> n])
SSpec == SInit /\ [][SNext]_<<rawvars, hist>>
PrintHist == Len(hist) # Depth \/ PrintT("HIST\t" \o ToJson(hist))
==============================================================================
