------------------------------- MODULE MCSetup -------------------------------
(* Initialisations at once, killed at any point, among files of others; the   *)
(* server started and stopped; clients that pin what they find.               *)
EXTENDS Setup
CONSTANTS Procs, MaxUser, MaxRun, Exclusive, KeepRoot
VARIABLES fs, pr, nuser, run, nrun, user
vars == <<fs, pr, nuser, run, nrun, user>>
\* contents: who made them.  A generation g of keys belongs together.
Fresh(p) == [by |-> "init", g |-> p]
Absent == [by |-> None, g |-> 0]
Init == /\ fs = [f \in Files |-> Absent]
        /\ pr = [p \in Procs |-> [st |-> "new", todo |-> <<>>, saw |-> "no"]]
        /\ nuser = 0 /\ run = [on |-> FALSE, key |-> 0, str |-> 0] /\ nrun = 0 /\ user = {}
Begin(p) == /\ pr[p].st = "new"
            /\ \E c \in BOOLEAN, w \in {"server", "client"} :
                 pr' = [pr EXCEPT ![p] = [st |-> "busy", todo |-> Order(w, c), saw |-> "no"]]
            /\ UNCHANGED <<fs, nuser, run, nrun, user>>
\* the next file, or, if it exists, without its other half
Skip(todo) == IF Len(todo) > 1 /\ <<todo[1], todo[2]>> \in Pairs THEN Tail(Tail(todo)) ELSE Tail(todo)
Put(p) ==
  /\ pr[p].st = "busy" /\ pr[p].todo # <<>>
  /\ LET f == Head(pr[p].todo) IN
     IF Exclusive
     THEN IF fs[f].by = None
          THEN /\ fs' = [fs EXCEPT ![f] = Fresh(p)]
               /\ pr' = [pr EXCEPT ![p].todo = Tail(@)]
          ELSE /\ pr' = [pr EXCEPT ![p].todo = Skip(@)] /\ UNCHANGED fs
     ELSE IF pr[p].saw = "no"
          THEN /\ pr' = [pr EXCEPT ![p] = IF fs[f].by = None THEN [@ EXCEPT !.saw = "absent"] ELSE [@ EXCEPT !.todo = Skip(@)]]
               /\ UNCHANGED fs
          ELSE /\ fs' = [fs EXCEPT ![f] = Fresh(p)]
               /\ pr' = [pr EXCEPT ![p].todo = Tail(@), ![p].saw = "no"]
  /\ UNCHANGED <<nuser, run, nrun, user>>
Done(p) == /\ pr[p].st = "busy" /\ pr[p].todo = <<>>
           /\ pr' = [pr EXCEPT ![p].st = "done"] /\ UNCHANGED <<fs, nuser, run, nrun, user>>
Kill(p) == /\ pr[p].st = "busy"
           /\ pr' = [pr EXCEPT ![p].st = "killed"] /\ UNCHANGED <<fs, nuser, run, nrun, user>>
Place == /\ nuser < MaxUser
         /\ \E f \in Files : /\ fs' = [fs EXCEPT ![f] = [by |-> "user", g |-> 100 + nuser]]
                             /\ user' = user \cup {f}
         /\ nuser' = nuser + 1 /\ UNCHANGED <<pr, run, nrun>>
Remove == /\ nuser < MaxUser
          /\ \E f \in Files : /\ fs[f].by # None
                              /\ fs' = [fs EXCEPT ![f] = Absent]
                              /\ user' = user \cup {f}
          /\ nuser' = nuser + 1 /\ UNCHANGED <<pr, run, nrun>>
Key(f) == IF fs[f].by = "user" THEN "bad" ELSE IF fs[f].by = None THEN None
          ELSE IF f \in {"scfg", "ccfg", "bcfg"} THEN "ok" ELSE ToString(fs[f].g)
K == [f \in Files |-> Key(f)]
Run == [on |-> run.on, key |-> ToString(run.key), str |-> ToString(run.str)]
Start == /\ ~run.on /\ nrun < MaxRun /\ Startable(K)
         /\ nrun' = nrun + 1
         /\ run' = [on |-> TRUE, key |-> fs["spriv"].g, str |-> 200 + nrun]
         /\ fs' = IF fs["istr"].by = None \/ ~KeepRoot THEN [fs EXCEPT !["istr"] = [by |-> "run", g |-> 200 + nrun]] ELSE fs
         /\ UNCHANGED <<pr, nuser, user>>
Stop == run.on /\ run' = [run EXCEPT !.on = FALSE] /\ UNCHANGED <<fs, pr, nuser, nrun, user>>
Next == (\E p \in Procs : Begin(p) \/ Put(p) \/ Done(p) \/ Kill(p)) \/ Place \/ Remove \/ Start \/ Stop
Spec == Init /\ [][Next]_vars
\* only the user changes what exists
NeverOverwritten == [][nuser' = nuser => \A f \in Files : fs[f].by # None => fs'[f] = fs[f]]_vars
\* keys written by initialisations match, whatever else happened
Match == \A p \in Pairs : ({p[1], p[2]} \cap user = {} /\ fs[p[1]].by = "init" /\ fs[p[2]].by = "init") => fs[p[1]].g = fs[p[2]].g
\* an initialisation that went through leaves everything there
Complete == \A p \in Procs : pr[p].st = "done" /\ user = {} /\ (\A q \in Procs : pr[q].st # "killed") /\ (\A q \in Procs : q # p => pr[q].st \in {"new", "done"}) =>
              \/ \A f \in Owned("server", FALSE) : fs[f].by = "init"
              \/ fs["ccfg"].by = "init"
\* a client that finds the files of the first run of untouched files is served
Usable == run.on /\ nrun = 1 /\ user = {} /\ K["ccfg"] = "ok" /\ fs["spub"].by # None => ClientLoads(K) /\ Trusts(K, Run)
\* and none is served by a server that is not the one it pinned
Pinned == ClientLoads(K) /\ Trusts(K, Run) => fs["spub"].g = run.key /\ fs["istr"].g = run.str
=============================================================================
