------------------------------ MODULE WireCases ------------------------------
EXTENDS Wire, Json, Randomization
CONSTANTS NReq, NRaw, NResp, NPin
VARIABLE c
NameToks == {"n" \o ToString(i) : i \in 0..11}
KeyToks == {"k" \o ToString(i) : i \in 0..5}
EpToks == {"e" \o ToString(i) : i \in 0..8}
Good(f) == CASE f = "name" -> NameToks [] f = "key" -> KeyToks [] f \in {"ep", "s", "e"} -> EpToks [] OTHER -> {"t", "f"}
Vals == [name : NameToks, key : KeyToks, ep : EpToks, s : EpToks, e : EpToks, f1 : {"t", "f"}, f2 : {"t", "f"}]
Odd == {"missing", "null", "wrong"}
OddVals == [name : {"n0", "n2", "n3"} \cup Odd, key : {"k0", "k2"} \cup Odd, ep : {"e0", "e8"} \cup Odd,
            s : {"e0", "e5"} \cup Odd, e : {"e0", "e8"} \cup Odd, f1 : {"t"} \cup Odd, f2 : {"t", "f"} \cup Odd]
Kinds4 == {"reg", "look", "lookep", "mon"}
ReqCase(x) == [op |-> "Req", t |-> x.t, as |-> x.as, vals |-> x.vals]
Forms == {"obj", "null", "absent", "string", "array", "num", "trunc", "extra", "trailing", "empty"}
Init ==
  \* every kind with every value of every one of its fields
  \/ \E t \in 0..3, f \in AllFields : \E v \in Good(f), d \in RandomSubset(1, Vals) :
       f \in Fields(KindOf(t)) /\ c = [op |-> "Req", t |-> t, as |-> KindOf(t), vals |-> [d EXCEPT ![f] = v]]
  \/ \E x \in RandomSubset(NReq, [t : 0..6, as : Kinds4, vals : Vals]) : c = ReqCase(x)
  \* messages the client application creates
  \/ \E n \in NameToks, k \in KeyToks : c = [op |-> "Msg", what |-> "reg", name |-> n, key |-> k]
  \/ \E n \in NameToks : c = [op |-> "Msg", what |-> "look", name |-> n, key |-> "k0"]
  \* requests encoded by someone else
  \/ \E tf \in TypeForms, t \in 0..7, b \in Forms : \E v \in RandomSubset(2, Vals) :
       (tf = "int" \/ t = 0) /\ c = [op |-> "Raw", tform |-> tf, t |-> t, form |-> b, vals |-> v, swap |-> t % 2 = 0]
  \/ \E x \in RandomSubset(NRaw, [t : 0..3, vals : OddVals, swap : BOOLEAN]) :
       c = [op |-> "Raw", tform |-> "int", t |-> x.t, form |-> "obj", vals |-> x.vals, swap |-> x.swap]
  \* answers: of a real directory, or of random parts, some of them altered
  \/ \E x \in {"reg", "existed", "look", "absent", "past", "mon", "hist"}, cd \in Codes, alt \in {0, 1} :
       \E v \in RandomSubset(1, 0..99) : \E ty \in {IF x = "hist" THEN 5 ELSE 1, IF x = "hist" THEN 2 ELSE 5} :
       c = [op |-> "Resp", src |-> x, code |-> cd, t |-> ty, alt |-> alt, v |-> v]
  \/ \E x \in RandomSubset(NResp, [code : Codes, t : {0, 1, 2, 3, 5}, alt : 0..3, v : 0..9999]) :
       c = [op |-> "Resp", src |-> "random", code |-> x.code, t |-> x.t, alt |-> x.alt, v |-> x.v]
  \/ \E cd \in Codes, t \in {0, 1, 2, 3, 5} : c = [op |-> "Resp", src |-> "none", code |-> cd, t |-> t, alt |-> 0, v |-> 0]
  \/ \E x \in RandomSubset(NResp \div 4, [t : {0, 1, 2, 3, 5}, how : {"trunc", "null", "string", "badap", "badstr", "badtb", "noterror", "array", "empty"}, v : 0..999]) :
       c = [op |-> "BadResp", t |-> x.t, how |-> x.how, v |-> x.v]
  \* pinned initial STRs
  \/ \E src \in {"real", "random"}, e \in EpToks, rel \in BOOLEAN, there \in BOOLEAN :
       c = [op |-> "Pin", src |-> src, e |-> e, rel |-> rel, there |-> there]
  \/ \E x \in RandomSubset(NPin, [how : {"trunc", "null", "object", "nopolicies", "noroot", "string", "array", "epochstring", "negative", "garbage", "empty", "missing", "dir"}, v : 0..999, rel : BOOLEAN]) :
       c = [op |-> "BadPin", how |-> x.how, v |-> x.v, rel |-> x.rel]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
PrintCase == PrintT("HIST\t" \o ToJson(<<c>>))
=============================================================================
