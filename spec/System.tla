------------------------------- MODULE System -------------------------------
(* The whole protocol without an adversary: a directory, clients that check   *)
(* all they receive, and an auditor that mirrors the directory's STRs.        *)
EXTENDS Directory

VARIABLES
  cl,     \* client -> [v: epoch of its trusted STR, keys: name -> key or "",
          \*            tbs: name -> [e, k], the promises it keeps; e = -1: none]
  aud,    \* latest epoch the auditor has observed
  rep     \* what the last operation reports to the client or auditor
sysvars == <<dirvars, cl, aud, rep>>

NoPromise == [e |-> -1, k |-> ""]
SysInit(clients, names, c, d, b) ==
  /\ DirInit(c, d, b)
  /\ cl = [x \in clients |-> [v |-> 0, keys |-> [n \in names |-> ""], tbs |-> [n \in names |-> NoPromise]]]
  /\ aud = 0
  /\ rep = [c |-> "", code |-> "none", key |-> ""]

\* client c has missed an epoch: it cannot follow the chain any more
Lost(c) == cur \notin {cl[c].v, cl[c].v + 1}
HasProof == resp'.aps # <<>>
AnsKey == IF resp'.tb # "" THEN resp'.tb ELSE IF HasProof THEN resp'.aps[1].val ELSE ""

(* client c checks the answer resp' to its request about n, expecting exp.    *)
(* After a failed check it may have accepted the STR of the answer.           *)
Checks(c, n, exp) ==
  LET code == IF ~HasProof THEN resp'.err
              ELSE IF Lost(c) THEN "refused"
              ELSE IF AnsKey # "" /\ exp # "" /\ AnsKey # exp THEN "differ"
              ELSE "ok"
  IN
  /\ rep' = [c |-> c, code |-> code, key |-> IF code = "ok" THEN AnsKey ELSE ""]
  /\ UNCHANGED aud
  /\ IF code = "ok" THEN
       \E forget \in BOOLEAN :
       cl' = [cl EXCEPT ![c] =
                [v |-> cur,
                 keys |-> IF AnsKey = "" THEN @.keys ELSE [@.keys EXCEPT ![n] = AnsKey],
                 tbs |-> IF resp'.tb # "" THEN [@.tbs EXCEPT ![n] = [e |-> cur, k |-> resp'.tb]]
                         ELSE IF AnsKey # "" /\ forget THEN [@.tbs EXCEPT ![n] = NoPromise]
                         ELSE @.tbs]]
     ELSE IF code = "differ" THEN
       \E w \in {cl[c].v, cur} : cl' = [cl EXCEPT ![c].v = w]
     ELSE UNCHANGED cl

ClientRegister(c, n, k) == Register(n, k) /\ Checks(c, n, k)
ClientLookup(c, n, exp) == KeyLookup(n) /\ Checks(c, n, exp)

Others == UNCHANGED <<cl, aud>> /\ rep' = [c |-> "", code |-> "none", key |-> ""]
SysUpdate == Update /\ Others
SysPolicies(d) == SetPolicies(d) /\ Others

\* the auditor fetches the STRs from epoch s on and audits them: fine if they
\* begin with the latest observed epoch or the one after it
AuditorFetch(s) ==
  /\ STRHistory(s, 1000000)
  /\ UNCHANGED cl
  /\ LET ok == resp'.err = "ok" /\ s \in {aud, aud + 1} IN
     /\ rep' = [c |-> "auditor", code |-> IF resp'.err # "ok" THEN resp'.err ELSE IF ok THEN "ok" ELSE "refused", key |-> ""]
     /\ aud' = IF ok THEN cur ELSE aud

\* client c compares its view with the auditor's for the epochs s to e
ClientCompare(c, s, e) ==
  /\ Quiet /\ UNCHANGED <<resp, cl, aud>>
  /\ rep' = [c |-> c, key |-> "",
             code |-> IF e > aud \/ s > e THEN "malformed"
                      ELSE IF e \in {cl[c].v, cl[c].v + 1} THEN "ok" ELSE "refused"]

-----------------------------------------------------------------------------
\* what a client remembers is what the directory has
ClientsRight ==
  \A c \in DOMAIN cl :
    /\ cl[c].v \in 0..cur
    /\ \A n \in DOMAIN cl[c].keys : cl[c].keys[n] # "" => n \in DOMAIN tree /\ tree[n] = cl[c].keys[n]
    /\ \A n \in DOMAIN cl[c].tbs : cl[c].tbs[n].e # -1 =>
          /\ n \in DOMAIN tree /\ tree[n] = cl[c].tbs[n].k
          /\ cl[c].tbs[n].e < cur => TreeAt(cur)[n] = cl[c].tbs[n].k
\* an accepted key is the registered one
AnswersRight == rep.key # "" => \E n \in DOMAIN tree : tree[n] = rep.key
\* all clients that follow agree
Agreement == \A c, d \in DOMAIN cl : \A n \in DOMAIN cl[c].keys :
               (cl[c].keys[n] # "" /\ cl[d].keys[n] # "") => cl[c].keys[n] = cl[d].keys[n]
\* trusted roots and the auditor only advance, one epoch at a time for clients
Advance == [][/\ \A c \in DOMAIN cl : cl'[c].v \in {cl[c].v, cl[c].v + 1}
              /\ aud' >= aud]_sysvars
\* a client that follows epoch by epoch is never refused
NeverRefused == [][\A c \in DOMAIN cl : (rep'.c = c /\ rep'.code = "refused" /\ cl' = cl /\ aud' = aud) =>
                      (Lost(c) \/ resp' = resp)]_sysvars
==============================================================================
