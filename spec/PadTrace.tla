------------------------------ MODULE PadTrace ------------------------------
(* Validates recorded executions of merkletree.PAD against Pad.               *)
EXTENDS Pad, TraceLib
VARIABLES l,
  coms,    \* version -> commitment as first seen
  roots    \* epoch -> root as first seen
tvars == <<padvars, l, coms, roots>>
E == Trace[l]
C(props, field, exp, obs) == Chk(l, props, field, exp, obs)

TInit ==
  \E i \in {j \in DOMAIN Trace : Trace[j].ev = "New"} :
    /\ PadInit(Trace[i].lcp, Trace[i].cap)
    /\ l = i + 1
    /\ coms = [x \in {} |-> 0]
    /\ roots = (0 :> Trace[i].o.root)
    /\ Chk(i, {"M01"}, "canonical root", TRUE, Trace[i].o.canon)
    /\ Chk(i, {"M03"}, "fresh randomness", TRUE, Trace[i].o.fresh)

IsEvent(name) == l \in DOMAIN Trace /\ E.ev = name /\ l' = l + 1

TSet == /\ IsEvent("Set") /\ Set(E.n, E.v)
        /\ C({"M01"}, "set", "ok", E.o.err)
        /\ UNCHANGED <<coms, roots>>

\* the roots of consecutive epochs are equal iff nothing was set in between
TUpd == /\ IsEvent("Upd") /\ Update
        /\ C({"M01", "D01"}, "canonical root", TRUE, E.o.canon)
        /\ C({"M03"}, "fresh randomness", TRUE, E.o.fresh)
        /\ C({"M01"}, "root repeated", snaps'[cur' + 1] = snaps[cur + 1], E.o.root = roots[cur])
        /\ C({"M01", "D01", "D02"}, "earlier proofs unchanged", TRUE, E.o.stable)
        /\ roots' = (cur' :> E.o.root) @@ roots
        /\ UNCHANGED coms

TLook ==
  /\ IsEvent("Look") /\ Lookup(E.n, E.e)
  /\ C(IF {resp'.err, E.o.err} \cap {"evicted"} # {} THEN {"D06"} ELSE {"M01"}, "err", resp'.err, E.o.err)
  /\ IF resp'.err # "ok" \/ E.o.err # "ok" THEN UNCHANGED coms ELSE
       /\ C({"M01", "D02"}, "kind", resp'.kind, E.o.kind)
       /\ C({"M01", "D02"}, "value", resp'.val, E.o.val)
       /\ C({"M01"}, "level", resp'.lvl, E.o.lvl)
       /\ C({"M01"}, "leaf", resp'.leaf, E.o.leaf)
       /\ C({"M01"}, "verifies", TRUE, E.o.ver)
       /\ C({"M03"}, "bare", TRUE, E.o.bare)
       /\ C({"M03"}, "leak", FALSE, E.o.leak)
       /\ C({"M01"}, "root", IF E.e \in DOMAIN roots THEN roots[E.e] ELSE -1, E.o.root)
       /\ LET v == resp'.ver IN
          IF v = 0 THEN UNCHANGED coms
          ELSE IF v \in DOMAIN coms
          THEN C({"M01"}, "commitment", coms[v], E.o.com) /\ UNCHANGED coms
          ELSE /\ C({"M03"}, "commitment is new", FALSE, \E u \in DOMAIN coms : coms[u] = E.o.com)
               /\ coms' = (v :> E.o.com) @@ coms
  /\ UNCHANGED roots

TNext == TSet \/ TUpd \/ TLook
TSpec == TInit /\ [][TNext]_tvars
TraceInv == Latest /\ Distinct /\ Answered
==============================================================================
