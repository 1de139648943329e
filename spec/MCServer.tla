------------------------------ MODULE MCServer ------------------------------
(* Exhaustive instance of Server.                                            *)
EXTENDS Server, Json
CONSTANTS MaxEpoch, MCPerms, MCKeys, Conns

Perms2 == {<<TRUE, FALSE>>, <<FALSE, FALSE>>}
Perms3 == [1..3 -> BOOLEAN]

VARIABLE op
MCBits == [n \in {"n1", "nx"} |-> IF n = "n1" THEN <<0, 1, 0>> ELSE <<1, 0, 0>>]

Reqs == [t : {0, 1, 2, 3}, p : {"Reg", "Look", "LookEp", "Mon"}, n : {"n1"}, k : MCKeys, s : {0}, e : {0, 1}]
     \cup [t : {0, 1, 4, 7}, p : {"Reg", "STR", "empty", "list"}, n : {"n1"}, k : {"k1"}, s : {0}, e : {0}]

\* requests that are the same but for fields that do not matter
Canon(q) == /\ q.p \notin {"LookEp", "Mon", "STR"} => q.e = 0
            /\ q.p # "Reg" => q.k = "k1"
Few == {q \in Reqs : Canon(q)}
\* for connections that stay open
Slow == {q \in Few : q.t \in {0, 1} /\ q.p = "Reg"}

MCInit == \E ps \in MCPerms : SrvInit(2, 1, LcpOfBits(MCBits), ps) /\ op = [op |-> "New", perms |-> ps]
MCNext ==
  \/ \E a \in DOMAIN perms, q \in Few : Request(a, q) /\ op' = [op |-> "Req", a |-> a, q |-> q]
  \/ \E a \in DOMAIN perms : Garbage(a) /\ op' = [op |-> "Raw", a |-> a]
  \/ \E c \in Conns, a \in DOMAIN perms, q \in Slow : Begin(c, a, q) /\ op' = [op |-> "Begin", c |-> c, a |-> a, q |-> q]
  \/ \E c \in Conns : Complete(c) /\ op' = [op |-> "Complete", c |-> c]
  \/ \E c \in Conns : Drop(c) /\ op' = [op |-> "Drop", c |-> c]
  \/ cur < MaxEpoch /\ Fire /\ op' = [op |-> "Fire"]
  \/ Tick /\ op' = [op |-> "Tick"]
  \/ \E ok \in BOOLEAN, d \in {1, 2} : Write(ok, d) /\ op' = [op |-> "Write", ok |-> ok, dl |-> d]
  \/ Reload /\ op' = [op |-> "Reload"]
  \/ Stop /\ op' = [op |-> "Stop"]
  \/ Stopped /\ op' = [op |-> "Stopped"]
MCSpec == MCInit /\ [][MCNext]_<<srvvars, op>>
          /\ WF_<<srvvars, op>>(\E c \in Conns : Drop(c) /\ op' = [op |-> "Drop", c |-> c])
          /\ WF_<<srvvars, op>>(Stopped /\ op' = [op |-> "Stopped"])

\* the directory's invariants hold behind the server
DirInv == Linear /\ Faithful /\ AppendOnly /\ Promises /\ TBOnlyPending /\ Retention
MCView == <<cap, cur, tree, tbs, snaps, loaded, pol, ad, perms, conf, up, open, due, resp>>
NoRespView == <<cap, cur, tree, tbs, snaps, loaded, pol, ad, perms, conf, up, open, due>>
PrintEdges ==
  IF op'.op \notin {"Req", "Raw"} THEN TRUE ELSE
  PrintT("EDGE\t" \o ToJson(<<tree, perms>>) \o "\t" \o ToJson(<<tree', perms>>) \o "\t" \o ToJson(op'))
PermOnly == up = "running" /\ open = {} /\ ~due
=============================================================================
