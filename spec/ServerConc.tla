------------------------------ MODULE ServerConc ------------------------------
(* The server's concurrency design: handlers and the epoch update work on the *)
(* directory in several steps, under a readers-writer lock.  With the lock,   *)
(* every request and update appears to happen at once; without it (negative   *)
(* control, Locks = {}) it does not.                                          *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS Clients, Names, Keys, MaxEpoch, Locks   \* operations that lock: "reg", "look", "upd"

VARIABLES
  tree, snap, tbs, cur,    \* the directory
  pc, req, part, ans,      \* clients: program counter, request, work in progress, answer
  upc,                     \* the update
  readers, writer,         \* the lock
  stop,                    \* shutdown has been requested
  since                    \* per client: the directories it may have been served by

vars == <<tree, snap, tbs, cur, pc, req, part, ans, upc, readers, writer, stop, since>>
None == ""
Free == [n \in Names |-> None]

\* the directory as seen from outside: while a writer is at work, as it was
Dir == [tree |-> tree, snap |-> snap, tbs |-> tbs, cur |-> cur]

\* the right answer to request q in directory d
Right(d, q) ==
  LET n == q.n IN
  IF q.op = "look"
  THEN [ep |-> d.cur, in |-> d.snap[n], tb |-> IF d.snap[n] = None THEN d.tbs[n] ELSE None, new |-> FALSE]
  ELSE IF d.snap[n] # None \/ d.tbs[n] # None
       THEN [ep |-> d.cur, in |-> d.snap[n], tb |-> IF d.snap[n] = None THEN d.tbs[n] ELSE None, new |-> FALSE]
       ELSE [ep |-> d.cur, in |-> None, tb |-> q.k, new |-> TRUE]

NoAnswer == [ep |-> -1, in |-> None, tb |-> None, new |-> FALSE]
Init ==
  /\ tree = Free /\ snap = Free /\ tbs = Free /\ cur = 0
  /\ pc = [c \in Clients |-> "idle"]
  /\ req = [c \in Clients |-> [op |-> "none", n |-> None, k |-> None]]
  /\ part = [c \in Clients |-> NoAnswer] /\ ans = [c \in Clients |-> NoAnswer]
  /\ upc = "idle" /\ readers = {} /\ writer = {} /\ stop = FALSE
  /\ since = [c \in Clients |-> {}]

\* a consistent directory: nobody is in the middle of changing it
Settled == upc \notin {"u2", "u3"} /\ \A c \in Clients : pc[c] \notin {"w2", "w3"}
See == since' = [c \in Clients |-> IF pc'[c] \in {"idle"} THEN {}
                                   ELSE IF Settled' THEN since[c] \cup {Dir'} ELSE since[c]]

Ask(c, op, n, k) ==
  /\ pc[c] = "idle" /\ ~stop
  /\ req' = [req EXCEPT ![c] = [op |-> op, n |-> n, k |-> k]]
  /\ pc' = [pc EXCEPT ![c] = "asked"]
  /\ UNCHANGED <<tree, snap, tbs, cur, part, ans, upc, readers, writer, stop>> /\ See
\* locking
Enter(c) ==
  /\ pc[c] = "asked"
  /\ IF req[c].op \notin Locks THEN UNCHANGED <<readers, writer>>
     ELSE IF req[c].op = "look" THEN writer = {} /\ readers' = readers \cup {c} /\ UNCHANGED writer
     ELSE writer = {} /\ readers = {} /\ writer' = {c} /\ UNCHANGED readers
  /\ pc' = [pc EXCEPT ![c] = "in"]
  /\ UNCHANGED <<tree, snap, tbs, cur, req, part, ans, upc, stop>> /\ See
\* first half: look at the snapshot
Half(c) ==
  /\ pc[c] = "in"
  /\ part' = [part EXCEPT ![c] = [ep |-> cur, in |-> snap[req[c].n], tb |-> None, new |-> FALSE]]
  /\ pc' = [pc EXCEPT ![c] = "half"]
  /\ UNCHANGED <<tree, snap, tbs, cur, req, ans, upc, readers, writer, stop>> /\ See
\* second half: look at the promises
Rest(c) ==
  /\ pc[c] = "half"
  /\ LET q == req[c]  a == part[c] IN
     IF a.in # None \/ tbs[q.n] # None \/ q.op = "look"
     THEN /\ ans' = [ans EXCEPT ![c] = [a EXCEPT !.tb = IF a.in # None THEN None ELSE tbs[q.n]]]
          /\ pc' = [pc EXCEPT ![c] = "out"] /\ UNCHANGED <<tree, tbs>>
     ELSE /\ tree' = [tree EXCEPT ![q.n] = q.k]
          /\ pc' = [pc EXCEPT ![c] = "w2"] /\ UNCHANGED <<tbs, ans>>
  /\ UNCHANGED <<snap, cur, req, part, upc, readers, writer, stop>> /\ See
Promise(c) ==
  /\ pc[c] = "w2"
  /\ tbs' = [tbs EXCEPT ![req[c].n] = req[c].k]
  /\ ans' = [ans EXCEPT ![c] = [part[c] EXCEPT !.tb = req[c].k, !.new = TRUE]]
  /\ pc' = [pc EXCEPT ![c] = "out"]
  /\ UNCHANGED <<tree, snap, cur, req, part, upc, readers, writer, stop>> /\ See
Leave(c) ==
  /\ pc[c] = "out"
  /\ readers' = readers \ {c} /\ writer' = writer \ {c}
  /\ pc' = [pc EXCEPT ![c] = "done"]
  /\ UNCHANGED <<tree, snap, tbs, cur, req, part, ans, upc, stop>> /\ See
Done(c) ==
  /\ pc[c] = "done" /\ pc' = [pc EXCEPT ![c] = "idle"]
  /\ req' = [req EXCEPT ![c] = [op |-> "none", n |-> None, k |-> None]]
  /\ part' = [part EXCEPT ![c] = NoAnswer] /\ ans' = [ans EXCEPT ![c] = NoAnswer]
  /\ UNCHANGED <<tree, snap, tbs, cur, upc, readers, writer, stop>> /\ See

\* the epoch update, when the timer fires
UEnter == /\ upc = "idle" /\ cur < MaxEpoch /\ ~stop
          /\ IF "upd" \in Locks THEN writer = {} /\ readers = {} /\ writer' = {"upd"} ELSE UNCHANGED writer
          /\ upc' = "u1" /\ UNCHANGED <<tree, snap, tbs, cur, pc, req, part, ans, readers, stop>> /\ See
USnap == /\ upc = "u1" /\ snap' = tree /\ upc' = "u2"
         /\ UNCHANGED <<tree, tbs, cur, pc, req, part, ans, readers, writer, stop>> /\ See
UEpoch == /\ upc = "u2" /\ cur' = cur + 1 /\ upc' = "u3"
          /\ UNCHANGED <<tree, snap, tbs, pc, req, part, ans, readers, writer, stop>> /\ See
UFlush == /\ upc = "u3" /\ tbs' = Free /\ upc' = "u4"
          /\ UNCHANGED <<tree, snap, cur, pc, req, part, ans, readers, writer, stop>> /\ See
ULeave == /\ upc = "u4" /\ writer' = writer \ {"upd"} /\ upc' = "idle"
          /\ UNCHANGED <<tree, snap, tbs, cur, pc, req, part, ans, readers, stop>> /\ See
Stop == ~stop /\ stop' = TRUE
        /\ UNCHANGED <<tree, snap, tbs, cur, pc, req, part, ans, upc, readers, writer>> /\ See

Step(c) == Enter(c) \/ Half(c) \/ Rest(c) \/ Promise(c) \/ Leave(c) \/ Done(c)
UStep == USnap \/ UEpoch \/ UFlush \/ ULeave
Next == \/ \E c \in Clients : Step(c)
        \/ \E c \in Clients, n \in Names, k \in Keys : Ask(c, "reg", n, k)
        \/ \E c \in Clients, n \in Names : Ask(c, "look", n, None)
        \/ UEnter \/ UStep \/ Stop
Spec == Init /\ [][Next]_vars /\ \A c \in Clients : SF_vars(Step(c)) /\ WF_vars(UStep)

\* S01: every answer is the right one for a directory that existed, as a whole,
\* between the request and the answer
Atomic == \A c \in Clients : pc[c] = "done" => \E d \in since[c] : ans[c] = Right(d, req[c])
\* promises are for what the next snapshot will hold; nothing is lost
Consistent == Settled /\ writer = {} =>
  \A n \in Names : /\ tbs[n] # None => tree[n] = tbs[n] /\ snap[n] = None
                   /\ snap[n] # None => tree[n] = snap[n]
                   /\ tree[n] # None => tbs[n] # None \/ snap[n] # None
\* S03: everything asked for is answered, also when the server stops
Answered == \A c \in Clients : (pc[c] = "asked") ~> (pc[c] = "idle")
==============================================================================
