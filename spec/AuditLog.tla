------------------------------ MODULE AuditLog ------------------------------
(* An auditor's log: the STR histories of the directories it observes, each   *)
(* identified by the directory's initial STR.                                 *)
EXTENDS Chains

VARIABLES
  log,     \* initial STR -> [key, hist]; hist = <<>> if it is not known
  ans      \* the answer to the last operation

auvars == <<U, log, ans>>

Known(i) == log[i].hist # <<>>
Latest(i) == log[i].hist[Len(log[i].hist)]
LastEpoch(i) == Len(log[i].hist) - 1
Ids(rng) == [j \in DOMAIN rng |-> rng[j].s]
Nothing(err) == [err |-> err, strs |-> <<>>]

AuditInit(u) ==
  /\ U = u
  /\ log = [i \in DOMAIN u |-> [key |-> 0, hist |-> <<>>]]
  /\ ans = Nothing("none")

\* rng[2..] is trusted input: the auditor's own saved history
InitHistory(key, rng) ==
  /\ UNCHANGED U
  /\ IF rng = <<>> \/ (rng # <<>> /\ U[rng[1].s].ep # 0) THEN
       ans' = Nothing("malformed") /\ UNCHANGED log
     ELSE IF Known(rng[1].s) THEN
       ans' = Nothing("erraudit") /\ UNCHANGED log
     ELSE
       /\ ans' = Nothing("ok")
       /\ log' = [log EXCEPT ![rng[1].s] = [key |-> key, hist |-> Ids(rng)]]

\* a range extends the history of i
Extends(i, rng) ==
  /\ rng # <<>>
  /\ Fits(log[i].key, Latest(i), rng[1])
  /\ \A j \in 2..Len(rng) : Follows(log[i].key, rng[j - 1].s, rng[j])
New(i, rng) == IF rng[1].s = Latest(i) THEN Tail(Ids(rng)) ELSE Ids(rng)

\* shape: "whole", or what is wrong with the message
Audit(i, shape, rng) ==
  /\ UNCHANGED U
  /\ IF shape = "whole" /\ Extends(i, rng) THEN
       /\ ans' = Nothing("ok")
       /\ log' = [log EXCEPT ![i].hist = @ \o New(i, rng)]
     ELSE ans' = Nothing("refused") /\ UNCHANGED log

GetObserved(i, s, e) ==
  /\ UNCHANGED <<U, log>>
  /\ ans' = IF i = 0 \/ (i # 0 /\ ~Known(i)) THEN Nothing("unknowndir")
            ELSE IF e > LastEpoch(i) \/ s > e THEN Nothing("malformed")
            ELSE [err |-> "ok", strs |-> SubSeq(log[i].hist, s + 1, e + 1)]

-----------------------------------------------------------------------------
\* A01: every history is one signed, linked chain without gaps
Linear ==
  \A i \in DOMAIN log : Known(i) =>
    /\ log[i].hist[1] = i
    /\ \A j \in DOMAIN log[i].hist : U[log[i].hist[j]].ep = j - 1
    /\ \A j \in 2..Len(log[i].hist) :
         /\ Linked(log[i].hist[j - 1], log[i].hist[j])
         /\ U[log[i].hist[j]].signer = log[i].key
\* histories only grow, one at a time
Grows ==
  [][\A i \in DOMAIN log :
       /\ Len(log'[i].hist) >= Len(log[i].hist)
       /\ SubSeq(log'[i].hist, 1, Len(log[i].hist)) = log[i].hist
       /\ log'[i] # log[i] => \A j \in DOMAIN log \ {i} : log'[j] = log[j]]_auvars
\* A02
Serves == \A j \in DOMAIN ans.strs : j > 1 => U[ans.strs[j]].ep = U[ans.strs[j - 1]].ep + 1
==============================================================================
