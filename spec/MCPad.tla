-------------------------------- MODULE MCPad --------------------------------
(* Small instance of Pad; prints its transitions as test cases.               *)
EXTENDS Pad, Json
CONSTANTS MaxEpoch, MaxVer, Names, Vals, Caps
VARIABLE op

MCBits == [n \in {"n1", "n2", "n3", "nx"} |->
             CASE n = "n1" -> <<0, 1, 0, 0, 0, 0>>
               [] n = "n2" -> <<0, 1, 0, 1, 0, 0>>
               [] n = "n3" -> <<1, 0, 0, 0, 0, 0>>
               [] n = "nx" -> <<0, 1, 0, 1, 1, 0>>]
MCInit == \E c \in Caps : PadInit(LcpOfBits(MCBits), c) /\ op = [op |-> "New", cap |-> c]
MCNext ==
  \/ \E n \in Names, v \in Vals : ver < MaxVer /\ Set(n, v) /\ op' = [op |-> "Set", n |-> n, v |-> v]
  \/ cur < MaxEpoch /\ Update /\ op' = [op |-> "Upd"]
  \/ \E n \in Names \cup {"nx"}, e \in 0..cur : Lookup(n, e) /\ op' = [op |-> "Look", n |-> n, e |-> e]
MCSpec == MCInit /\ [][MCNext]_<<padvars, op>>
MCView == <<cap, cur, tree, ver, snaps, loaded>>
PrintEdges ==
  IF UNCHANGED MCView THEN TRUE ELSE
  PrintT("EDGE\t" \o ToJson(MCView) \o "\t" \o ToJson(MCView') \o "\t" \o ToJson(op'))
==============================================================================
