-------------------------------- MODULE SimKv --------------------------------
(* Random histories of the key-value store.                                   *)
EXTENDS Kv, KvRange, Json, Randomization
CONSTANT Depth
VARIABLES hist, few
svars == <<kvvars, hist, few>>
Some(S) == RandomSubset(1, IF Len(hist) >= 0 THEN S ELSE {})
Do(o) == hist' = Append(hist, o)
Bytes == {0, 1, 97, 254, 255}
Strings(n) == UNION {[1..i -> Bytes] : i \in 0..n}
Vs == {"v" \o ToString(i) : i \in 1..6} \cup {"w" \o ToString(i) : i \in 1..3} \cup {""}
Big == {"big" \o ToString(i) : i \in 1..3}
\* every history uses some keys, so that they are written again and deleted
SInit == /\ KvInit
         /\ few \in [1..1 -> {{}}]
         /\ hist = <<[op |-> "New"]>>
\* ops on the chosen keys and sometimes on others
Keys == few[1]
SKey(K) == IF Keys = {} THEN Strings(4) ELSE IF K < 85 THEN Keys ELSE Strings(3)
One(c, k, v) == IF c <= 62 THEN [t |-> "put", k |-> k, v |-> v]
                ELSE IF c <= 95 THEN [t |-> "del", k |-> k, v |-> ""]
                ELSE [t |-> "reset", k |-> <<>>, v |-> ""]
SBatch(n, vs) ==
  \E c1 \in Some(1..100), c2 \in Some(1..100), c3 \in Some(1..100), c4 \in Some(1..100),
     s \in Some(1..100) :
  \E k1 \in Some(SKey(s)), k2 \in Some(SKey(s)), k3 \in Some(SKey(s)), k4 \in Some(SKey(s)),
     v1 \in Some(vs), v2 \in Some(vs), v3 \in Some(vs), v4 \in Some(vs) :
    LET all == <<One(c1, k1, v1), One(c2, k2, v2), One(c3, IF c3 % 3 = 0 THEN k1 ELSE k3, v3), One(c4, k4, v4)>>
        ops == SubSeq(all, 1, n)
    IN Write(ops) /\ Do([op |-> "Batch", ops |-> ops])
SStep(w, s) ==
  CASE w \in 1..230 -> \E k \in Some(SKey(s)), v \in Some(IF s > 96 THEN Big ELSE Vs) :
         Write(<<[t |-> "put", k |-> k, v |-> v]>>) /\ Do([op |-> "Put", k |-> k, v |-> v])
    [] w \in 231..340 -> \E k \in Some(SKey(s)) :
         Write(<<[t |-> "del", k |-> k, v |-> ""]>>) /\ Do([op |-> "Del", k |-> k])
    [] w \in 341..520 -> \E n \in Some(0..4) : SBatch(n, IF s > 96 THEN Big ELSE Vs)
    [] w \in 521..640 -> \E k \in Some(SKey(s)) : UNCHANGED kvvars /\ Do([op |-> "Get", k |-> k])
    [] w \in 641..670 -> Reopen /\ Do([op |-> "Reopen"])
    [] w \in 671..720 -> Reopen /\ Do([op |-> "Crash", during |-> FALSE])
    [] w \in 721..760 -> CrashIn /\ Do([op |-> "Crash", during |-> TRUE])
    [] w \in 761..880 -> \E k \in Some(SKey(s)), n \in Some(0..4) :
         UNCHANGED kvvars /\ Do([op |-> "Prefix", p |-> SubSeq(k, 1, Min2(n, Len(k)))])
    [] w \in 881..940 -> \E a \in Some(SKey(s)), b \in Some(SKey(s) \cup {NoLimit}) :
         UNCHANGED kvvars /\ Do([op |-> "Scan", s |-> a, e |-> b])
    [] w \in 941..950 -> UNCHANGED kvvars /\ Do([op |-> "Scan", s |-> <<>>, e |-> NoLimit])
    [] OTHER -> \E k \in Some(SKey(s)), n \in Some(0..1), ws \in Some([1..6 -> {"First", "Next", "Last"}]) :
         UNCHANGED kvvars /\ Do([op |-> "Walk", p |-> SubSeq(k, 1, Min2(n, Len(k))), ws |-> ws])
SNext ==
  IF Keys = {}
  THEN /\ \E A \in {RandomSubset(4, IF Len(hist) >= 0 THEN Strings(2) ELSE {})} :
         few' = <<A \cup {Append(a, 0) : a \in A} \cup {Append(a, 255) : a \in A}>>
       /\ UNCHANGED <<kvvars, hist>>
  ELSE UNCHANGED few /\ \E w \in Some(1..1000), s \in Some(1..100) : SStep(w, s)
SSpec == SInit /\ [][SNext]_svars
PrintHist == Len(hist) # Depth \/ PrintT("HIST\t" \o ToJson(hist))
=============================================================================
