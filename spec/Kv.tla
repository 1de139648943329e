--------------------------------- MODULE Kv ---------------------------------
(* The key-value store: a map from keys to values.  A write is a sequence of  *)
(* puts and deletes that takes effect at once; `old' is the map before the    *)
(* write that was begun last, for a crash in the middle of it.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES map, old
kvvars == <<map, old>>
Empty == [x \in {} |-> ""]
Without(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
\* o = [t |-> "put" | "del" | "reset", k, v]; a reset drops what a batch has so far
Step(m, o) == IF o.t = "put" THEN (o.k :> o.v) @@ m ELSE Without(m, o.k)
RECURSIVE Apply(_, _)
Apply(m, ops) == IF ops = <<>> THEN m ELSE Apply(Step(m, Head(ops)), Tail(ops))
RECURSIVE Kept(_)
Kept(ops) == IF \E i \in DOMAIN ops : ops[i].t = "reset"
             THEN Kept(Tail(ops)) ELSE ops
KvInit == map = Empty /\ old = Empty
Write(ops) == map' = Apply(map, Kept(ops)) /\ old' = map
\* the process ends or is killed, or the machine loses what was not forced out
Reopen == map' = map /\ old' = map
CrashIn == map' \in {map, old} /\ old' = map'
Found(m, k) == IF k \in DOMAIN m THEN [ok |-> TRUE, v |-> m[k]] ELSE [ok |-> FALSE, v |-> ""]
=============================================================================
