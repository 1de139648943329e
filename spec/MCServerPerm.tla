---------------------------- MODULE MCServerPerm ----------------------------
(* All request types, payloads and permissions: the transitions of the server *)
(* within one epoch, as test cases.                                           *)
EXTENDS Server, Json
CONSTANTS PermNames, PermKeys, NumAddrs

VARIABLE op
PBits == [n \in PermNames |-> IF n = "n1" THEN <<0, 1, 0>> ELSE <<1, 0, 0>>]
Types == {-1, 0, 1, 2, 3, 4, 5, 6, 7, 100}
Payloads == Objects \cup {"null", "none", "string", "number", "list", "badname", "badepoch"}

Q(t, p, n, k, s, e) == [t |-> t, p |-> p, n |-> n, k |-> k, s |-> s, e |-> e]
Reqs == {Q(t, "Reg", n, k, 0, 0) : t \in Types, n \in PermNames, k \in PermKeys}
   \cup {Q(t, p, n, "", 0, 0) : t \in Types, p \in {"Look", "LookEp", "Mon"}, n \in PermNames}
   \cup {Q(t, p, "n1", "", 0, 1) : t \in {2, 3}, p \in {"LookEp", "Mon", "STR"}}
   \cup {Q(t, p, "n1", "", 0, 0) : t \in Types, p \in Payloads \ {"Reg", "Look", "LookEp", "Mon"}}

PInit == \E ps \in [1..NumAddrs -> BOOLEAN] :
           SrvInit(2, 60, LcpOfBits(PBits), ps) /\ op = [op |-> "New", perms |-> ps]
PNext == \E a \in DOMAIN perms, q \in Reqs : Request(a, q) /\ op' = [op |-> "Req", a |-> a, q |-> q]
PSpec == PInit /\ [][PNext]_<<srvvars, op>>
PView == <<tree, perms>>
PrintEdges == PrintT("EDGE\t" \o ToJson(PView) \o "\t" \o ToJson(PView') \o "\t" \o ToJson(op'))
=============================================================================
