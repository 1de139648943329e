---------------------------- MODULE SimDirectory ----------------------------
(* Random long histories of the directory, printed as operation sequences.   *)
EXTENDS Directory, Json, Randomization

CONSTANTS SimNames, SimKeys, SimCaps, Depth

VARIABLE hist
Huge == 1000000

\* any distinct indices do here: the driver uses those of the real names
Order == <<"n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "nx", "ny">>
Num == [n \in SimNames \cup {"nx", "ny"} |-> 7 * (CHOOSE i \in DOMAIN Order : Order[i] = n) % 16]
Bit(x, i) == (x \div (2 ^ i)) % 2
SimBits == [n \in DOMAIN Num |-> [i \in 1..5 |-> IF i = 5 THEN 0 ELSE Bit(Num[n], i - 1)]]

Do(o) == hist' = Append(hist, o)
AnyName == SimNames \cup {"nx", "ny"}
\* one random element; state-level, so that TLC draws anew in every step
Some(S) == RandomSubset(1, IF Len(hist) >= 0 THEN S ELSE {})

SInit == \E c \in SimCaps, d \in {1, 60} :
           DirInit(c, d, LcpOfBits(SimBits)) /\ hist = <<[op |-> "New", cap |-> c, dl |-> d]>>

Eps == {Max(0, cur - 1), cur, cur + 1} \cup (Max(0, loaded[1] - 1)..cur)
Far == Eps \cup {0, Huge, Huge + 1}
Known == IF DOMAIN tree = {} THEN AnyName ELSE DOMAIN tree
Pending == IF DOMAIN tbs = {} THEN Known ELSE DOMAIN tbs
SReg(N) == \E n \in Some(N), k \in Some(SimKeys) : Register(n, k) /\ Do([op |-> "Reg", n |-> n, k |-> k])
SLook(N) == \E n \in Some(N) : KeyLookup(n) /\ Do([op |-> "Look", n |-> n])
SLookEp(N, T) == \E n \in Some(N), e \in Some(T) : KeyLookupInEpoch(n, e) /\ Do([op |-> "LookEp", n |-> n, e |-> e])
SMon(N, T) == \E n \in Some(N), s \in Some(T), e \in Some(T) :
           Monitor(n, s, e) /\ Do([op |-> "Mon", n |-> n, s |-> s, e |-> e])
SHist(T) == \E s \in Some(T), e \in Some(T) : STRHistory(s, e) /\ Do([op |-> "Hist", s |-> s, e |-> e])
SEmpty == \/ \E k \in Some(SimKeys \cup {""}) : Register("", k) /\ Do([op |-> "Reg", n |-> "", k |-> k])
SEmptyKey == \E n \in Some(SimNames) : Register(n, "") /\ Do([op |-> "Reg", n |-> n, k |-> ""])
SUpd == Update /\ Do([op |-> "Upd"])
SPol == \E d \in Some({1, 5, 60, 3600}) : SetPolicies(d) /\ Do([op |-> "Pol", dl |-> d])

SNext ==
  \E w \in Some(1..100) :
    CASE w \in 1..12  -> SReg(AnyName)
      [] w \in 13..20 -> SReg(Known)
      [] w \in 21..27 -> SLook(AnyName)
      [] w \in 28..32 -> SLook(Pending)
      [] w \in 33..42 -> SLookEp(AnyName, Eps)
      [] w \in 43..46 -> SLookEp(Known, Far)
      [] w \in 47..54 -> SMon(AnyName, Eps)
      [] w \in 55..60 -> SMon(Known, Far)
      [] w \in 61..66 -> SHist(Eps)
      [] w \in 67..70 -> SHist(Far)
      [] w = 71 -> SEmpty
      [] w = 72 -> SEmptyKey
      [] w = 73 -> SLook({""})
      [] w = 74 -> SLookEp({""}, Far)
      [] w = 75 -> SMon({""}, Far)
      [] w \in 76..79 -> SPol
      [] OTHER -> SUpd
SSpec == SInit /\ [][SNext]_<<dirvars, hist>>

PrintHist == Len(hist) # Depth \/ PrintT("HIST\t" \o ToJson(hist))
=============================================================================
