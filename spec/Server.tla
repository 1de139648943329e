-------------------------------- MODULE Server --------------------------------
(* The CONIKS key server: a Directory behind network addresses, each with its *)
(* permissions; connections that may never complete; an epoch timer; a        *)
(* configuration file that is re-read on a signal; and shutdown.              *)
EXTENDS Directory, TLC

VARIABLES
  perms,   \* address -> may it register?  (addresses are 1..Len(perms))
  conf,    \* the configuration file: can it be loaded, and which deadline
  up,      \* "running", "stopping", "stopped"
  open,    \* connections the server has accepted whose request is incomplete
  due      \* the epoch timer has fired

srvvars == <<dirvars, perms, conf, up, open, due>>
rest == <<perms, conf, up, open, due>>

-----------------------------------------------------------------------------
(* Requests.  t is the request type on the wire, p the kind of its payload.  *)

RegT == 0  LookT == 1  LookEpT == 2  MonT == 3

\* payloads that are JSON objects of the protocol's request messages
Objects == {"Reg", "Look", "LookEp", "Mon", "STR", "empty"}
\* the fields an object has; all others take their zero values
HasName(p) == p \in {"Reg", "Look", "LookEp", "Mon"}

\* what a request means, once it is decoded according to its type
Name(q) == IF HasName(q.p) THEN q.n ELSE ""
Key(q) == IF q.p = "Reg" THEN q.k ELSE ""
Ep(q) == IF q.p = "LookEp" THEN q.e ELSE 0
Start(q) == IF q.p \in {"Mon", "STR"} THEN q.s ELSE 0
End(q) == IF q.p \in {"Mon", "STR"} THEN q.e ELSE 0

Decodes(q) == q.t \in {RegT, LookT, LookEpT, MonT} /\ q.p \in Objects
Permitted(a, t) == \/ t \in {LookT, LookEpT, MonT}
                   \/ t = RegT /\ perms[a]

Serve(a, q) ==
  IF ~Decodes(q) \/ ~Permitted(a, q.t)
  THEN resp' = Refuse("malformed") /\ Quiet
  ELSE CASE q.t = RegT -> Register(Name(q), Key(q))
         [] q.t = LookT -> KeyLookup(Name(q))
         [] q.t = LookEpT -> KeyLookupInEpoch(Name(q), Ep(q))
         [] q.t = MonT -> Monitor(Name(q), Start(q), End(q))

-----------------------------------------------------------------------------

SrvInit(c, d, b, ps) ==
  /\ DirInit(c, d, b)
  /\ perms = ps
  /\ conf = [ok |-> TRUE, dl |-> d]
  /\ up = "running"
  /\ open = {}
  /\ due = FALSE

\* a complete request on a fresh connection
Request(a, q) == up = "running" /\ Serve(a, q) /\ UNCHANGED rest

\* arbitrary bytes that are no request
Garbage(a) == /\ up = "running"
              /\ resp' = Refuse("malformed")
              /\ Quiet /\ UNCHANGED rest

\* a connection whose request is not complete yet, its completion (also while
\* the server shuts down), and its end by the time limit or the client
Begin(c, a, q) == /\ up = "running"
                  /\ c \notin {x.c : x \in open}
                  /\ open' = open \cup {[c |-> c, a |-> a, q |-> q]}
                  /\ UNCHANGED <<dirvars, perms, conf, up, due>>
Complete(c) == /\ up # "stopped"
               /\ \E x \in open : x.c = c /\ Serve(x.a, x.q) /\ open' = open \ {x}
               /\ UNCHANGED <<perms, conf, up, due>>
Drop(c) == /\ \E x \in open : x.c = c /\ open' = open \ {x}
           /\ UNCHANGED <<dirvars, perms, conf, up, due>>

\* the timer, and the update it triggers
Fire == ~due /\ due' = TRUE /\ UNCHANGED <<dirvars, perms, conf, up, open>>
Tick == due /\ up # "stopped" /\ Update /\ due' = FALSE /\ UNCHANGED <<perms, conf, up, open>>

\* the configuration file changes, and the server is told to read it
Write(ok, d) == /\ conf' = [ok |-> ok, dl |-> d]
                /\ UNCHANGED <<dirvars, perms, up, open, due>>
Reload == /\ up = "running"
          /\ IF conf.ok THEN SetPolicies(conf.dl) ELSE Quiet /\ UNCHANGED resp
          /\ UNCHANGED rest

Stop == /\ up = "running" /\ up' = "stopping"
        /\ UNCHANGED <<dirvars, perms, conf, open, due>>
Stopped == /\ up = "stopping" /\ open = {} /\ up' = "stopped"
           /\ UNCHANGED <<dirvars, perms, conf, open, due>>

-----------------------------------------------------------------------------
(* The properties                                                            *)

\* S02: only an address that may register changes the directory's bindings
OnlyPermitted ==
  [][tree' # tree => \E a \in DOMAIN perms : perms[a]]_srvvars
PermsFixed == [][perms' = perms]_srvvars
\* S02, S03: a refused request has no effect
RefusedNoEffect ==
  [][resp'.err = "malformed" /\ resp' # resp =>
       UNCHANGED <<cur, tree, tbs, snaps, loaded, pol, ad>>]_srvvars
\* S03: a shutdown answers (or times out) what was accepted
Drained == up = "stopped" => open = {}
ShutdownEnds == (up = "stopping") ~> (up = "stopped")
\* S04: an epoch starts only when the timer has fired, and not after shutdown
OnlyByTimer == [][cur' # cur => due /\ ~due' /\ up # "stopped"]_srvvars
\* S05: policies change only by a reload of a valid configuration
OnlyByReload == [][pol' # pol => conf.ok /\ pol' = conf.dl]_srvvars
==============================================================================
