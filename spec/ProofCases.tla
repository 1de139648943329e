----------------------------- MODULE ProofCases -----------------------------
(* The authentication paths tried on the real Verify: honest ones, honest     *)
(* ones with one or two changes or verified for something else, and crafted   *)
(* ones that fold to their own root.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Pairs, Crafted

Bases == {"incl1", "incl2", "inclDeep", "inclAgain", "absEmpty", "absEmptyDeep", "absLeaf", "absLeafDeep", "absEmptyTree"}
Changes ==
  {[f |-> "nonce", h |-> h] : h \in {"first", "last", "cut", "grow", "nil", "other"}}
  \cup {[f |-> "lookup", h |-> h] : h \in {"first", "last", "cut", "grow", "nil", "other", "leaf", "belowlevel", "atlevel"}}
  \cup {[f |-> "level", h |-> h] : h \in {"inc", "dec", "zero", "huge", "wrap"}}
  \cup {[f |-> "sib", h |-> h] : h \in {"first", "last", "middle", "dropfirst", "droplast", "none", "addfirst", "addlast", "swap", "repeat", "many"}}
  \cup {[f |-> "levelsib", h |-> h] : h \in {"inc", "dec", "zero", "far"}}
  \cup {[f |-> "index", h |-> h] : h \in {"first", "last", "cut", "grow", "nil", "lookup", "belowlevel", "atlevel", "long"}}
  \cup {[f |-> "value", h |-> h] : h \in {"nil", "empty", "other", "grow", "cut", "wanted"}}
  \cup {[f |-> "empty", h |-> h] : h \in {"toggle"}}
  \cup {[f |-> "com", h |-> h] : h \in {"nil", "first", "last", "cut", "grow", "nilvalue", "other", "fresh"}}
  \cup {[f |-> "salt", h |-> h] : h \in {"first", "last", "cut", "grow", "nil", "other", "shift", "unshift"}}
  \cup {[f |-> "leaf", h |-> "nil"]}
Args == {[n |-> n, v |-> v, r |-> r] :
           n \in {"own", "other", "empty"}, v \in {"own", "other", "nil", "grow"}, r \in {"own"}}
        \cup {[n |-> "own", v |-> "own", r |-> r] : r \in {"older", "newer", "cut", "nil", "fork", "zero"}}
Own == [n |-> "own", v |-> "own", r |-> "own"]

Mutated == {[op |-> "Mut", base |-> b, m |-> <<>>, a |-> a] : b \in Bases, a \in Args}
           \cup {[op |-> "Mut", base |-> b, m |-> <<c>>, a |-> Own] : b \in Bases, c \in Changes}
           \cup {[op |-> "Mut", base |-> b, m |-> <<c>>, a |-> [Own EXCEPT !.n = "other"]] : b \in Bases,
                    c \in {x \in Changes : x.f \in {"lookup", "index", "salt", "value"}}}
TwoChanges == [op : {"Mut"}, base : Bases, m : {<<c, d>> : c, d \in Changes}, a : {Own}]

Plain(k) == [op |-> "Craft", nonce |-> 32, ilen |-> IF k = "empty" THEN -1 ELSE 32, lvl |-> 2, sib |-> 0,
             empty |-> k = "empty", com |-> k # "empty", clen |-> 32, slen |-> IF k = "incl" THEN 32 ELSE 0,
             same |-> k = "incl", opens |-> k = "incl", value |-> k = "incl", match |-> 256, mode |-> "eq", lookup |-> 32]
Levels == {0, 1, 2, 7, 8, 9, 16, 31, 32, 33, 64, 255, 256, 257, 300}
Kinds == {"incl", "abs", "empty"}
OneOff(p) ==
  {[p EXCEPT !.nonce = x] : x \in {0, 1, 31, 32, 33, 64, 100}}
  \cup {[p EXCEPT !.ilen = x] : x \in {-1, 0, 1, 2, 31, 32, 33, 64}}
  \cup {[p EXCEPT !.lvl = x] : x \in Levels}
  \cup {[p EXCEPT !.sib = x] : x \in {-2, -1, 0, 1, 2}}
  \cup {[p EXCEPT !.empty = ~@], [p EXCEPT !.com = ~@], [p EXCEPT !.same = ~@], [p EXCEPT !.opens = ~@],
        [p EXCEPT !.value = ~@], [p EXCEPT !.empty = ~@, !.same = ~@]}
  \cup {[p EXCEPT !.clen = x] : x \in {0, 1, 31, 33, 64}}
  \cup {[p EXCEPT !.slen = x] : x \in {0, 1, 31, 32, 33, 64}}
  \cup {[p EXCEPT !.match = x] : x \in {0, 1, 2, 3, 7, 8, 9, 31, 32, 255}}
  \cup {[p EXCEPT !.lookup = x] : x \in {0, 1, 31, 33, 64}}
CraftedCases ==
  UNION {OneOff(Plain(k)) : k \in Kinds}
  \cup UNION {OneOff([Plain(k) EXCEPT !.lvl = l]) : k \in Kinds, l \in {1, 8, 9, 32, 33, 256}}
  \cup {[Plain(k) EXCEPT !.lvl = l, !.match = l + d] : k \in Kinds, l \in Levels \ {0, 300}, d \in {-1, 0, 1}}
Wild == [op : {"Craft"}, nonce : {0, 31, 32, 33}, ilen : {-1, 0, 31, 32, 33}, lvl : {0, 1, 2, 8, 9, 256}, sib : {-1, 0, 1},
         empty : BOOLEAN, com : BOOLEAN, clen : {0, 31, 32, 33}, slen : {0, 31, 32, 33}, same : BOOLEAN,
         opens : BOOLEAN, value : BOOLEAN, match : {0, 1, 8, 256}, mode : {"eq"}, lookup : {31, 32, 33}]

\* two openings of one commitment, two readings of one leaf
Forged == {[op |-> "Forge", how |-> h, k |-> k] :
             h \in {"saltshift", "inclempty", "emptyincl", "nonceshift", "siblingleaf"}, k \in {1, 2, 9}}

VARIABLE c
Init == \/ c \in Mutated \cup CraftedCases \cup Forged
        \/ c \in RandomSubset(Pairs, TwoChanges)
        \/ c \in RandomSubset(Crafted, Wild)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
PrintCase == PrintT("HIST\t" \o ToJson(<<c>>))
==============================================================================
