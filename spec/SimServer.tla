------------------------------ MODULE SimServer ------------------------------
(* Random conversations with the server, as operation sequences.  Ticks cost  *)
(* real time, so their number is bounded.                                     *)
EXTENDS Server, Json, Randomization
CONSTANTS SimNames, SimKeys, Kinds, Depth, MaxTicks
VARIABLES hist, kind, ticks, live

Bit(x, i) == (x \div (2 ^ i)) % 2
Order == <<"n1", "n2", "n3", "nx">>
SimBits == [n \in SimNames |-> LET x == 7 * (CHOOSE i \in DOMAIN Order : Order[i] = n) % 16 IN
              [i \in 1..5 |-> IF i = 5 THEN 0 ELSE Bit(x, i - 1)]]
Some(S) == RandomSubset(1, IF Len(hist) >= 0 THEN S ELSE {})
Do(o) == hist' = Append(hist, o)

GarbageKinds == <<"empty", "binary", "notjson", "truncated", "array", "number", "null", "typestring", "typefloat",
                  "typelist", "trailing", "twice", "deep", "badutf8", "bom", "nobrace", "zeros", "big",
                  "oversize", "oversizejson", "reset", "halfhello", "plaintext", "stall", "drip">>

SInit ==
  \E k \in Kinds, ps \in {<<TRUE, FALSE>>, <<FALSE, TRUE, TRUE>>, <<TRUE, TRUE, FALSE, FALSE>>}, c \in {1, 3, 10}, d \in {1, 7, 60} :
    \E t \in IF k = "timer" THEN {1, 2} ELSE IF k = "reload" THEN {2} ELSE IF k = "stop" THEN {1, 600} ELSE {600} :
      /\ SrvInit(c, d, LcpOfBits(SimBits), ps)
      /\ kind = k /\ ticks = 0 /\ live = (t < 600)
      /\ hist = <<[op |-> "New", kind |-> k, perms |-> ps, cap |-> c, dl |-> d, timer |-> t]>>

Q(t, p, n, k, s, e) == [t |-> t, p |-> p, n |-> n, k |-> k, s |-> s, e |-> e]
Eps == {Max(0, cur - 1), cur, cur + 1} \cup (Max(0, loaded[1] - 1)..cur)
Known == IF DOMAIN tree = {} THEN SimNames ELSE DOMAIN tree
Address == DOMAIN perms
Writers == IF \E a \in Address : perms[a] THEN {a \in Address : perms[a]} ELSE Address

Ready == up = "running"
Sent(a, q) == Request(a, q) /\ Do([op |-> "Req", a |-> a, q |-> q]) /\ UNCHANGED <<kind, ticks, live>>
SReg == \E a \in Some(Writers), n \in Some(SimNames), k \in Some(SimKeys) : Sent(a, Q(0, "Reg", n, k, 0, 0))
SRegAny == \E a \in Some(Address), n \in Some(SimNames), k \in Some(SimKeys) : Sent(a, Q(0, "Reg", n, k, 0, 0))
SLook == \E a \in Some(Address), w \in Some(1..10) : \E n \in Some(IF w < 7 THEN Known ELSE SimNames) : Sent(a, Q(1, "Look", n, "", 0, 0))
SLookEp == \E a \in Some(Address), n \in Some(Known), e \in Some(Eps) : Sent(a, Q(2, "LookEp", n, "", 0, e))
SMon == \E a \in Some(Address), n \in Some(Known), s \in Some(Eps), e \in Some(Eps) : Sent(a, Q(3, "Mon", n, "", s, e))
SOdd == \E a \in Some(Address), t \in Some({-1, 1, 4, 5, 6, 100}), p \in Some({"Reg", "STR", "null", "list"}) :
          Sent(a, Q(t, p, "n1", "k1", 0, 0))
SGarbage == \E a \in Some(Address), i \in Some(1..Len(GarbageKinds)) :
              /\ Garbage(a) /\ Do([op |-> "Raw", a |-> a, kind |-> GarbageKinds[i]]) /\ UNCHANGED <<kind, ticks, live>>
Free == {"c1", "c2", "c3"} \ {x.c : x \in open}
SBegin == \E a \in Some(Address), w \in Some(1..10), n \in Some(SimNames), k \in Some(SimKeys), c \in Some(Free) :
          LET q == IF w < 6 THEN Q(0, "Reg", n, k, 0, 0) ELSE Q(1, "Look", n, "", 0, 0) IN
            Begin(c, a, q) /\ Do([op |-> "Begin", c |-> c, a |-> a, q |-> q]) /\ UNCHANGED <<kind, ticks, live>>
SComplete == \E x \in Some(open) : Complete(x.c) /\ Do([op |-> "Complete", c |-> x.c]) /\ UNCHANGED <<kind, ticks, live>>
SDrop == \E x \in Some(open) : Drop(x.c) /\ Do([op |-> "Drop", c |-> x.c]) /\ UNCHANGED <<kind, ticks, live>>
\* the timer runs: the driver waits for the next epoch
STick == /\ live /\ ticks < MaxTicks /\ Update /\ ticks' = ticks + 1 /\ Do([op |-> "Tick"])
         /\ UNCHANGED <<rest, kind, live>>
BadConfs == <<"missing", "corrupt", "empty", "nopolicies", "nosignkey", "shortsignkey", "novrfkey", "longvrfkey", "badtype", "dir">>
SWrite == \E w \in Some(1..10) :
          IF w <= 6 THEN \E d \in Some({1, 2, 5, 60, 3600}) : Write(TRUE, d) /\ Do([op |-> "Write", kind |-> "valid", dl |-> d]) /\ UNCHANGED <<kind, ticks, live>>
          ELSE \E i \in Some(1..Len(BadConfs)), d \in Some({1, 5, 99}) :
                 Write(FALSE, d) /\ Do([op |-> "Write", kind |-> BadConfs[i], dl |-> d]) /\ UNCHANGED <<kind, ticks, live>>
SReload == /\ ticks < MaxTicks /\ Reload /\ ticks' = ticks + 1 /\ Do([op |-> "Reload"]) /\ UNCHANGED <<kind, live>>
SStop == Stop /\ Do([op |-> "Stop"]) /\ UNCHANGED <<kind, ticks, live>>
SStopped == /\ up = "stopping" /\ up' = "stopped" /\ open' = {} /\ UNCHANGED <<dirvars, perms, conf, due>>
            /\ Do([op |-> "Stopped"]) /\ UNCHANGED <<kind, ticks, live>>
SAfter == up = "stopped" /\ UNCHANGED srvvars /\ Do([op |-> "After"]) /\ UNCHANGED <<kind, ticks, live>>

Query(w) == IF w <= 3 THEN SReg ELSE IF w <= 5 THEN SLook ELSE IF w <= 7 THEN SLookEp ELSE IF w <= 9 THEN SMon ELSE SRegAny
SNext ==
  \E w \in Some(1..100), v \in Some(1..10) :
    IF Len(hist) >= Depth THEN FALSE ELSE
    IF kind = "timer" THEN
      IF w <= 40 /\ ticks < MaxTicks THEN STick ELSE IF up = "running" /\ Len(hist) = Depth - 3 THEN SStop
      ELSE IF up = "stopping" THEN SStopped ELSE IF up = "stopped" THEN SAfter ELSE Query(v)
    ELSE IF kind = "reload" THEN
      IF w <= 25 THEN SWrite ELSE IF w <= 45 /\ ticks < MaxTicks THEN SReload
      ELSE IF w <= 70 /\ ticks < MaxTicks THEN STick ELSE Query(v)
    ELSE IF kind = "stop" THEN
      IF up = "running" THEN
        IF Len(hist) >= Depth - 6 THEN SStop
        ELSE IF w <= 40 /\ Free # {} THEN SBegin ELSE IF w <= 50 /\ open # {} THEN SComplete ELSE Query(v)
      ELSE IF up = "stopping" THEN
        IF open # {} /\ w <= 75 THEN SComplete ELSE SStopped
      ELSE SAfter
    ELSE
      IF w <= 45 THEN SGarbage ELSE IF w <= 55 THEN SOdd ELSE IF w <= 65 /\ Free # {} THEN SBegin
      ELSE IF w <= 72 /\ open # {} THEN SComplete ELSE IF w <= 76 /\ open # {} THEN SDrop ELSE Query(v)
SSpec == SInit /\ [][SNext]_<<srvvars, hist, kind, ticks, live>>
PrintHist == Len(hist) # Depth \/ PrintT("HIST\t" \o ToJson(hist))
==============================================================================
