-------------------------------- MODULE Setup --------------------------------
(* Initialising directories for a server, a client and a bot, starting the    *)
(* server, and what a client that relies on the files there is told.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == "none"
\* files: of the server's, the client's and the bot's directory
Order(who, cert) ==
  CASE who = "server" -> <<"scfg", "spriv", "spub", "vpriv", "vpub">> \o (IF cert THEN <<"pkey", "pem">> ELSE <<>>)
    [] who = "client" -> <<"ccfg">>
    [] OTHER -> <<"bcfg">>
Owned(who, cert) == {Order(who, cert)[i] : i \in DOMAIN Order(who, cert)}
Files == Owned("server", TRUE) \cup Owned("client", FALSE) \cup Owned("bot", FALSE) \cup {"istr"}
Pairs == {<<"spriv", "spub">>, <<"vpriv", "vpub">>, <<"pkey", "pem">>}
Secret == {"spriv", "vpriv", "pkey"}
Keys == {"spriv", "vpriv", "pkey", "spub", "vpub"}
\* the files an initialisation has to, and those it may create, given the
\* files that are there: a public key without its private key is never made up
Must(who, cert, there) ==
  LET o == Owned(who, cert) \ there IN
  {f \in o : \A p \in Pairs : f \in {p[1], p[2]} => {p[1], p[2]} \cap there = {}}
May(who, cert, there) == Owned(who, cert) \ there
\* a server can start from these contents (k: what key a file holds)
Startable(k) == k["scfg"] = "ok" /\ \A f \in {"spriv", "vpriv", "pkey"} : k[f] \notin {None, "bad"} /\ k["pem"] = k["pkey"]
\* a client trusts the running server
ClientLoads(k) == k["ccfg"] = "ok" /\ k["spub"] \notin {None, "bad"} /\ k["istr"] \notin {None, "bad"}
Trusts(k, run) == run.on /\ k["spub"] = run.key /\ k["istr"] = run.str
\* what a client's user is told, in order; reg: the bindings at the server
RECURSIVE Told(_, _, _)
Told(qs, reg, trusts) ==
  IF qs = <<>> THEN <<>>
  ELSE LET q == Head(qs)
           known == q.name \in DOMAIN reg
           reg2 == IF q.op = "register" /\ ~known THEN (q.name :> q.key) @@ reg ELSE reg
           a == IF ~trusts THEN "refused"
                ELSE IF q.op = "register" THEN IF ~known THEN "registered" ELSE IF reg[q.name] = q.key THEN "existed" ELSE "differs"
                ELSE IF known THEN "found:" \o reg[q.name] ELSE "absent"
       IN <<a>> \o Told(Tail(qs), reg2, trusts)
RECURSIVE After(_, _)
After(qs, reg) ==
  IF qs = <<>> THEN reg
  ELSE After(Tail(qs), IF Head(qs).op = "register" /\ Head(qs).name \notin DOMAIN reg THEN (Head(qs).name :> Head(qs).key) @@ reg ELSE reg)
=============================================================================
