----------------------------- MODULE CryptoTrace -----------------------------
(* Validates what the real primitives did against Crypto.                     *)
EXTENDS Crypto, TraceLib
VARIABLE l
E == Trace[l]
C(P, field, exp, obs) == Chk(l, {P}, field, exp, obs)
IsEvent(name) == l \in DOMAIN Trace /\ E.ev = name /\ l' = l + 1
Res(b) == IF b THEN "accept" ELSE "refuse"
TMake == /\ IsEvent("VrfMake")
         /\ C("X01", "proof of an output", "ok", E.o.res)
         /\ C("X01", "outputs for one input", 1, Cardinality({E.o.outs[i] : i \in DOMAIN E.o.outs}))
         /\ C("X01", "inputs intact", TRUE, E.o.intact)
TTable == /\ IsEvent("VrfTable")
          /\ LET T == {E.entries[i] : i \in DOMAIN E.entries}
                 n == Cardinality({<<t.k, t.m>> : t \in T}) IN
             /\ C("X01", "distinct outputs", n, Cardinality({t.out : t \in T}))
             /\ C("X01", "distinct proven values", n, Cardinality({t.ii : t \in T}))
             /\ C("X01", "distinct public keys", Cardinality({t.k : t \in T}), Cardinality({t.pk : t \in T}))
TMany == IsEvent("VrfMany") /\ C("X01", "fresh keys and inputs", [bad |-> "none", distinct |-> E.n], E.o)
TVer == /\ IsEvent("VrfVer")
        /\ C("X01", "verdict", Res(VrfAccepts(E.op)), E.o.res)
        /\ C("X01", "inputs intact", TRUE, E.o.intact)
TForge == /\ IsEvent("VrfForge")
          /\ IF E.how = "selftest" THEN TRUE ELSE C("X01", "forged proof " \o E.how, "refuse", E.o.res)
          /\ C("X01", "output foretold", FALSE, E.o.predicted)
TSig == /\ IsEvent("SigVer")
        /\ C("X02", "signature", Res(SigAccepts(E.op)), E.o.res)
        /\ C("X02", "inputs intact", TRUE, E.o.intact)
TOpen == /\ IsEvent("Open")
         /\ C("X02", "opening", Res(Opens(E.cs, E.v)), E.o.res)
         /\ C("X02", "honest opening", TRUE, E.o.honest)
         /\ C("X02", "inputs intact", TRUE, E.o.intact)
TDigest == /\ IsEvent("Digest")
           /\ C("X02", "equal digests", SameInput(E.a, E.b), E.o.same)
           /\ C("X02", "SHAKE128", TRUE, E.o.ref)
           /\ C("X02", "inputs intact", TRUE, E.o.intact)
TDigestLen == IsEvent("DigestLen") /\ C("X02", "SHAKE128", TRUE, E.ref)
TRand == /\ IsEvent("Rand")
         /\ C("X02", "fresh", E.n, E.o.distinct)
         /\ C("X02", "biased bits", 0, E.o.biased)
         /\ C("X02", "size", <<32>>, E.o.sizes)
\* of several processes started together: nothing appears twice
TFresh == /\ IsEvent("Fresh")
          /\ C("X02", "fresh in every process", E.n, Cardinality({E.ids[i] : i \in DOMAIN E.ids}))
TFault == /\ IsEvent("RandFault")
          /\ IF E.fault = "none" THEN C("X02", "without a fault", [res |-> "ok", got |-> TRUE], E.o)
             ELSE C("X02", "without entropy", [res |-> "error", got |-> FALSE], E.o)
TNext == TMany \/ TMake \/ TTable \/ TVer \/ TForge \/ TSig \/ TOpen \/ TDigest \/ TDigestLen \/ TRand \/ TFresh \/ TFault
TInit == l = 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
