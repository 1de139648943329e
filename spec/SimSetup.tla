------------------------------- MODULE SimSetup -------------------------------
(* Histories of set-ups.                                                      *)
EXTENDS Setup, Json, Randomization
CONSTANTS MaxOps
VARIABLES hist, on, there
vars == <<hist, on, there>>
Some(S) == RandomSubset(1, IF Len(hist) >= 0 THEN S ELSE {})
SF == Files \ {"bcfg"}
Do(op) == hist' = Append(hist, op)
Names == {"alice", "bob", "alice@twitter"}
Qs == {<<[op |-> "register", name |-> n, key |-> k]>> : n \in Names, k \in {"k1", "k2"}} \cup {<<[op |-> "lookup", name |-> n, key |-> ""]>> : n \in Names}
Queries == CHOOSE q \in {a \o b \o c \o d : a \in Some(Qs), b \in Some(Qs), c \in Some(Qs), d \in Some(Qs)} : TRUE
\* usually, all the files are made first
Begin ==
  /\ hist = <<>>
  /\ \E c \in Some({TRUE, TRUE, FALSE}), w \in Some({"dir", "other"}), u \in Some({"022", "000", "027"}) :
       hist' = <<[op |-> "Init", who |-> "server", cert |-> c, cwd |-> w, umask |-> u], [op |-> "Edit"]>>
  /\ there' = Owned("server", TRUE) /\ UNCHANGED on
Place == /\ \E f \in Some(Files), k \in Some({"junk", "a", "b"}) : Do([op |-> "Place", f |-> f, kind |-> k]) /\ there' = there \cup {f}
         /\ UNCHANGED on
Remove == /\ there # {} /\ \E f \in Some(there \cup {"istr"}) : Do([op |-> "Remove", f |-> f]) /\ there' = there \ {f}
          /\ UNCHANGED on
Init2 == \E x \in Some({<<"server", TRUE>>, <<"server", FALSE>>, <<"client", FALSE>>, <<"bot", FALSE>>}), w \in Some({"dir", "other"}), u \in Some({"022", "000", "077"}) :
           /\ hist' = hist \o <<[op |-> "Init", who |-> x[1], cert |-> x[2], cwd |-> w, umask |-> u]>> \o (IF x[1] = "bot" THEN <<>> ELSE <<[op |-> "Edit"]>>)
           /\ there' = there \cup Owned(x[1], x[2]) /\ UNCHANGED on
Crash == \E f \in Some(Owned("server", TRUE)), k \in Some(1..4) :
           Do([op |-> "Crash", who |-> "server", cert |-> TRUE, f |-> f, k |-> k]) /\ UNCHANGED <<on, there>>
Start == /\ ~on /\ on' = TRUE
         /\ \E w \in Some({"dir", "other", "abs"}), p \in Some(BOOLEAN), o \in Some(BOOLEAN) : Do([op |-> "Start", cwd |-> w, pid |-> p, oldpid |-> o])
         /\ there' = there \cup {"istr"}
Stop == on /\ on' = FALSE /\ Do([op |-> "Stop"]) /\ UNCHANGED there
Session == /\ \E w \in Some({"dir", "other", "abs"}) : hist' = Append(hist, [op |-> "Session", cwd |-> w, qs |-> Queries])
           /\ UNCHANGED <<on, there>>
\* a client appears when it is needed
Client == /\ "ccfg" \notin there
          /\ hist' = hist \o <<[op |-> "Init", who |-> "client", cert |-> FALSE, cwd |-> "other", umask |-> "022"], [op |-> "Edit"]>>
          /\ there' = there \cup {"ccfg"} /\ UNCHANGED on
Move == \E f \in Some({"spriv", "vpriv", "pkey", "pem", "istr", "spub"}), h \in Some({"rel", "abs"}) :
          Do([op |-> "Move", f |-> f, how |-> h]) /\ UNCHANGED <<on, there>>
Next == /\ Len(hist) < MaxOps
        /\ IF hist = <<>> THEN Begin \/ Place
           ELSE \E x \in Some(1..11) :
             CASE x = 1 -> Place
               [] x = 2 -> Remove
               [] x = 3 -> Init2
               [] x = 4 -> Crash
               [] x = 11 -> Move
               [] x \in {5, 6} -> IF on THEN Stop ELSE Start
               [] x = 7 -> IF on THEN Session ELSE Start
               [] OTHER -> IF "ccfg" \in there THEN (IF on \/ x = 8 THEN Session ELSE Start) ELSE Client
Init == hist = <<>> /\ on = FALSE /\ there = {}
Spec == Init /\ [][Next]_vars
PrintHist == Len(hist) >= MaxOps => PrintT("HIST\t" \o ToJson(hist))
=============================================================================
