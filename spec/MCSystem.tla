------------------------------ MODULE MCSystem ------------------------------
EXTENDS System, Json
CONSTANTS Clients, MCNames, MCKeys, MaxEpoch, MCCaps

VARIABLE op

MCBits == [n \in {"n1", "n2"} |-> IF n = "n1" THEN <<0, 1, 0>> ELSE <<0, 1, 1>>]
MCInit == \E c \in MCCaps : SysInit(Clients, MCNames, c, 1, LcpOfBits(MCBits)) /\ op = [op |-> "New"]
MCNext ==
  \/ \E c \in Clients, n \in MCNames, k \in MCKeys : ClientRegister(c, n, k)
       /\ op' = [op |-> "Reg", c |-> c, n |-> n, k |-> k]
  \/ \E c \in Clients, n \in MCNames, k \in MCKeys \cup {""} : ClientLookup(c, n, k)
       /\ op' = [op |-> "Look", c |-> c, n |-> n, k |-> k]
  \/ cur < MaxEpoch /\ SysUpdate /\ op' = [op |-> "Upd"]
  \/ \E s \in 0..MaxEpoch : AuditorFetch(s) /\ op' = [op |-> "Fetch", s |-> s]
  \/ \E c \in Clients, s, e \in 0..MaxEpoch : ClientCompare(c, s, e)
       /\ op' = [op |-> "Comp", c |-> c, s |-> s, e |-> e]
MCSpec == MCInit /\ [][MCNext]_<<sysvars, op>>
MCView == <<cap, cur, tree, tbs, snaps, loaded, cl, aud>>
PrintEdges ==
  IF UNCHANGED MCView THEN TRUE ELSE
  PrintT("EDGE\t" \o ToJson(MCView) \o "\t" \o ToJson(MCView') \o "\t" \o ToJson(op'))
=============================================================================
