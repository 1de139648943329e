------------------------------- MODULE LinTrace -------------------------------
(* Decides whether what concurrent clients saw of a running server is what a  *)
(* server that serves the requests one at a time shows them: TLC searches for *)
(* an order of the requests, and of epoch updates between them, in which each *)
(* request takes effect between its sending and its answer.                   *)
(*                                                                            *)
(* The search is lazy: requests that leave the directory as it is take effect *)
(* as soon as their answer is right, anything else only when the next answer  *)
(* needs it.  No order is lost by that.                                       *)
EXTENDS Server, TraceLib

VARIABLES
  h,      \* the history, a line of the trace
  pos,    \* position in its sequence of sendings (i) and answers (-i)
  pend    \* requests sent that have not taken effect

lvars == <<srvvars, h, pos, pend>>
H == Trace[h]
Op(i) == H.ops[i]
Steps == H.seq

-----------------------------------------------------------------------------
\* the answer the directory gives now, and whether it is the observed one
ApEq(o, a) == o.kind = a.kind /\ o.val = a.val
SameAnswer(o, r) ==
  /\ o.err = r.err
  /\ [i \in DOMAIN r.strs |-> r.strs[i]] = [i \in DOMAIN o.strs |-> o.strs[i].ep]
  /\ Len(r.aps) = Len(o.aps)
  /\ \A i \in DOMAIN r.aps : ApEq(o.aps[i], r.aps[i])
  /\ (r.tb # "") = o.tb
  /\ o.tb => o.tbval = r.tb

Refused(i) == ~Decodes(Op(i).q) \/ ~Permitted(Op(i).a, Op(i).q.t)
IsWrite(i) == LET q == Op(i).q IN
  /\ ~Refused(i) /\ q.t = RegT
  /\ Name(q) # "" /\ Key(q) # "" /\ Name(q) \notin DOMAIN tree

\* as in Directory, for requests that change nothing
ReadAnswer(i) ==
  LET q == Op(i).q  n == Name(q) IN
  IF Refused(i) \/ n = "" THEN Refuse("malformed")
  ELSE CASE q.t = RegT ->
              IF Key(q) = "" THEN Refuse("malformed")
              ELSE IF Included(n) THEN Current("existed", n, "") ELSE Current("existed", n, tbs[n])
         [] q.t = LookT ->
              IF Included(n) THEN Current("ok", n, "")
              ELSE IF n \in DOMAIN tbs THEN Current("ok", n, tbs[n]) ELSE Current("notfound", n, "")
         [] q.t = LookEpT ->
              LET e == Ep(q) IN
              IF e > cur THEN Refuse("malformed") ELSE IF ~Retained(e) THEN Refuse("errdir")
              ELSE Answer(IF n \in DOMAIN TreeAt(e) THEN "ok" ELSE "notfound", <<AP(n, e)>>, Epochs(e, cur), "")
         [] q.t = MonT ->
              LET s == Start(q)  e == End(q) IN
              IF s > cur \/ s > e THEN Refuse("malformed")
              ELSE LET eps == Epochs(s, Min(e, cur)) IN
                   IF \E j \in DOMAIN eps : ~Retained(eps[j]) THEN Refuse("errdir")
                   ELSE Answer("ok", [j \in DOMAIN eps |-> AP(n, eps[j])], eps, "")

Ready == {i \in pend : ~IsWrite(i) /\ SameAnswer(Op(i).o, ReadAnswer(i))}
Blocked == pos \in DOMAIN Steps /\ Steps[pos] < 0 /\ -Steps[pos] \in pend

\* the latest epoch that an answer shows
EpochsSeen == UNION {{Op(i).o.strs[j].ep : j \in DOMAIN Op(i).o.strs} : i \in DOMAIN H.ops}
LastSeen == IF EpochsSeen = {} THEN 0 ELSE CHOOSE e \in EpochsSeen : \A f \in EpochsSeen : f <= e
\* a refused request may have come long after the epoch it asked for
Asked == {Ep(Op(i).q) : i \in DOMAIN H.ops} \cup {Start(Op(i).q) : i \in DOMAIN H.ops}
Furthest == cap + CHOOSE e \in Asked \cup {LastSeen} : \A f \in Asked \cup {LastSeen} : f <= e
\* the epoch an answer was given in, if it shows it
EpochOf(i) == LET o == Op(i).o IN
  IF Len(o.strs) = 0 \/ Op(i).q.t = MonT THEN -1 ELSE o.strs[Len(o.strs)].ep

-----------------------------------------------------------------------------
LInit ==
  \E i \in {j \in DOMAIN Trace : Trace[j].ev = "Conc"} :
    /\ SrvInit(Trace[i].cap, Trace[i].dl, Trace[i].lcp, Trace[i].perms)
    /\ h = i /\ pos = 1 /\ pend = {}

Still == UNCHANGED <<srvvars, h>>
Reads == Ready # {} /\ pend' = pend \ Ready /\ Still /\ UNCHANGED pos
Advance == /\ Ready = {} /\ pos \in DOMAIN Steps /\ ~Blocked
           /\ pos' = pos + 1
           /\ pend' = IF Steps[pos] > 0 THEN pend \cup {Steps[pos]} ELSE pend
           /\ Still
Writes == /\ Ready = {} /\ Blocked
          /\ \E i \in pend :
               /\ IsWrite(i) /\ Op(i).o.err = "ok"
               /\ LET q == Op(i).q IN Register(Name(q), Key(q))
               /\ SameAnswer(Op(i).o, resp')
               /\ pend' = pend \ {i}
          /\ UNCHANGED <<perms, conf, up, open, due, h, pos>>
Updates == /\ Ready = {} /\ Blocked
           /\ LET e == EpochOf(-Steps[pos]) IN IF e >= 0 THEN cur < e ELSE cur <= Furthest
           /\ Update
           /\ UNCHANGED <<perms, conf, up, open, due, h, pos, pend>>
LNext == Reads \/ Advance \/ Writes \/ Updates
LSpec == LInit /\ [][LNext]_lvars

\* resp plays no role once an answer was compared
LView == <<cur, tree, tbs, snaps, loaded, h, pos, pend>>

\* prints how far the search got in each history
Progress == IF pos > Len(Steps) THEN PrintT("DONE\t" \o ToString(h))
            ELSE IF Blocked THEN PrintT("AT\t" \o ToString(h) \o "\t" \o ToString(pos)) ELSE TRUE
==============================================================================
