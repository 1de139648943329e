------------------------------ MODULE BotTrace ------------------------------
(* Validates what the real bot did against Bot.                               *)
EXTENDS Bot, TraceLib
VARIABLE l
E == Trace[l]
B == {"B01"}
C(field, exp, obs) == Chk(l, B, field, exp, obs)
IsEvent(name) == l \in DOMAIN Trace /\ E.ev = name /\ l' = l + 1
TReg == /\ IsEvent("Reg")
        /\ LET o == [fwd |-> E.o.fwd, ans |-> E.o.ans]
               may == Outcomes(E.sender, E.m, E.srv) IN
           IF o \in may THEN TRUE ELSE Mismatch(l, B, "passed on and answered", may, o)
        \* whatever reached the server, the server reads it as a registration of the sender's name
        /\ C("names at the server", {}, {E.o.names[i] : i \in {j \in DOMAIN E.o.names : ~NameFor(E.sender, E.o.names[j])}})
        /\ C("input modified", FALSE, E.o.modified)
\* the answers sent, in the order of the messages reacted to
RECURSIVE Explained(_, _)
Explained(ds, sent) ==
  IF ds = <<>> THEN sent = <<>>
  ELSE LET d == Head(ds) IN
       IF ~Reacts(E.bot, d) THEN Explained(Tail(ds), sent)
       ELSE /\ sent # <<>>
            /\ sent[1].to = d.from
            /\ sent[1].prefix
            /\ [fwd |-> sent[1].fwd, ans |-> sent[1].ans] \in DMOutcomes(d, E.srv)
            /\ Explained(Tail(ds), Tail(sent))
TRun == /\ IsEvent("Run")
        /\ IF Explained(E.dms, E.o.sent) THEN TRUE ELSE Mismatch(l, B, "messages sent", {d \in {E.dms[i] : i \in DOMAIN E.dms} : Reacts(E.bot, d)}, E.o.sent)
TStart == /\ IsEvent("Start")
          /\ C("started", IF E.addr = "there" /\ E.who = "same" THEN "ok" ELSE "error", E.o.res)
          /\ IF E.o.res = "ok" THEN C("old messages left", 0, E.o.left) ELSE TRUE
TNext == TReg \/ TRun \/ TStart
TInit == l = 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
