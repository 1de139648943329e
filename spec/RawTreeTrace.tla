---------------------------- MODULE RawTreeTrace ----------------------------
(* Validates recorded executions of merkletree.MerkleTree against RawTree.    *)
EXTENDS RawTree, TraceLib
VARIABLES l, coms
tvars == <<rawvars, l, coms>>
E == Trace[l]
C(props, field, exp, obs) == Chk(l, props, field, exp, obs)
TInit == \E i \in {j \in DOMAIN Trace : Trace[j].ev = "New"} :
           RawInit(Trace[i].lcp) /\ l = i + 1 /\ coms = [x \in {} |-> 0]
IsEvent(name) == l \in DOMAIN Trace /\ E.ev = name /\ l' = l + 1
TSet == IsEvent("Set") /\ Set(E.t, E.n, E.v) /\ C({"M01"}, "set", "ok", E.o.err) /\ UNCHANGED coms
TClone == IsEvent("Clone") /\ Clone(E.t) /\ C({"M01"}, "clone", "ok", E.o.err) /\ UNCHANGED coms
TGet ==
  /\ IsEvent("Get") /\ Get(E.t, E.n)
  /\ C({"M01"}, "get", "ok", E.o.err)
  /\ IF E.o.err # "ok" THEN UNCHANGED coms ELSE
       /\ C({"M01"}, "kind", resp'.kind, E.o.kind)
       /\ C({"M01"}, "value", resp'.val, E.o.val)
       /\ C({"M01"}, "level", resp'.lvl, E.o.lvl)
       /\ C({"M01"}, "siblings", resp'.lvl, E.o.sib)
       /\ C({"M01"}, "leaf", resp'.leaf, E.o.leaf)
       /\ C({"M01"}, "prefix", TRUE, E.o.prefix)
       /\ C({"M01"}, "opens", TRUE, E.o.opens)
       /\ C({"M03"}, "bare", TRUE, E.o.bare)
       /\ C({"M03"}, "nonce", TRUE, E.o.nonce)
       /\ LET v == resp'.ver IN
          IF v = 0 THEN UNCHANGED coms
          ELSE IF v \in DOMAIN coms
          THEN C({"M01"}, "commitment", coms[v], E.o.com) /\ UNCHANGED coms
          ELSE /\ C({"M03"}, "commitment is new", FALSE, \E u \in DOMAIN coms : coms[u] = E.o.com)
               /\ coms' = (v :> E.o.com) @@ coms
TNext == TSet \/ TClone \/ TGet
TSpec == TInit /\ [][TNext]_tvars
==============================================================================
