--------------------------- MODULE MalformedCases ---------------------------
(* The edits tried: every single edit of every part of every answer, random   *)
(* pairs of edits, and edits of the bytes.                                    *)
EXTENDS Malformed, TLC, Json, Randomization
CONSTANTS Pairs, Bytes
VARIABLE c
Case(a, p, es, raw) == [op |-> "Bytes", a |-> a, prior |-> p, as |-> IF a = "equiv" THEN "audit" ELSE "proof", edits |-> es, raw |-> raw]
AllParts == UNION {Parts(a) : a \in Answers}
Init ==
  \/ \E a \in Answers : c = Case(a, "none", <<>>, <<>>)
  \/ \E a \in Answers : \E p \in Parts(a), h \in Hows : \E q \in RandomSubset(1, Priors) : c = Case(a, q, <<[path |-> p, how |-> h]>>, <<>>)
  \* read as another kind of answer
  \/ \E a \in Answers : \E p \in Parts(a), h \in {"null", "missing", "emptylist"} :
       c = [Case(a, "none", <<[path |-> p, how |-> h]>>, <<>>) EXCEPT !.as = IF @ = "audit" THEN "proof" ELSE "audit"]
  \/ \E x \in RandomSubset(Pairs, [a : Answers, e : AllParts, f : AllParts, h : Hows, i : Hows, p : Priors]) :
       c = Case(x.a, x.p, <<[path |-> x.e, how |-> x.h], [path |-> x.f, how |-> x.i]>>, <<>>)
  \/ \E x \in RandomSubset(Bytes, [a : Answers, p : Priors, how : Raws, at : 0..999, bit : 0..255]) :
       c = Case(x.a, x.p, <<>>, <<[how |-> x.how, at |-> x.at, bit |-> x.bit]>>)
  \/ \E x \in RandomSubset(Bytes \div 2, [a : Answers, p : Priors, how : Raws, at : 0..99, h : Raws, bit : 0..255]) :
       c = Case(x.a, x.p, <<>>, <<[how |-> x.how, at |-> 10 * x.at, bit |-> x.bit], [how |-> x.h, at |-> 999 - 7 * x.at, bit |-> x.bit]>>)
  \/ \E a \in Answers : \E r \in {[how |-> "trunc", at |-> i, bit |-> 0] : i \in 0..999} : c = Case(a, "known", <<>>, <<r>>)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
PrintCase == PrintT("HIST\t" \o ToJson(<<c>>))
==============================================================================
