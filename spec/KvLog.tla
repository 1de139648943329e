------------------------------- MODULE KvLog -------------------------------
(* How the store does it: a write is appended to a journal as one record in   *)
(* several pieces, forced to stable storage and then acknowledged.  A crash   *)
(* keeps some prefix of the journal that has at least the forced part, and    *)
(* recovery replays the complete records.  The constants switch the mechanism *)
(* off: without Sync acknowledged writes may be lost, and without Whole (one  *)
(* record for every operation) half a batch may survive.                      *)
EXTENDS Kv
CONSTANTS Keys, Vals, MaxWrites, Sync, Whole
VARIABLES journal, forced, todo, mem, n
\* journal: pieces [ops, end]; todo: pieces of the write in progress; mem: the
\* volatile map readers see
lvars == <<journal, forced, todo, mem, n>>
vars == <<kvvars, lvars>>
Ops == [t : {"put"}, k : Keys, v : Vals] \cup [t : {"del"}, k : Keys, v : {""}]
Batches == UNION {[1..i -> Ops] : i \in 1..2}
Pieces(ops) == [i \in 1..Len(ops) |-> [op |-> ops[i], end |-> IF Whole THEN i = Len(ops) ELSE TRUE]]
\* the operations of the complete records of a journal
RECURSIVE Replay(_, _, _)
Replay(m, part, j) ==
  IF j = <<>> THEN m
  ELSE LET p == Append(part, Head(j).op) IN
       IF Head(j).end THEN Replay(Apply(m, p), <<>>, Tail(j)) ELSE Replay(m, p, Tail(j))
Recovered(j) == Replay(Empty, <<>>, j)
LInit == KvInit /\ journal = <<>> /\ forced = 0 /\ todo = <<>> /\ mem = Empty /\ n = 0
Begin(ops) == /\ todo = <<>> /\ n < MaxWrites /\ n' = n + 1
              /\ todo' = <<"begun">> \o Pieces(ops)
              /\ Write(ops) /\ UNCHANGED <<journal, forced, mem>>
Appending == /\ Len(todo) > 1
             /\ journal' = Append(journal, todo[2])
             /\ todo' = <<"begun">> \o SubSeq(todo, 3, Len(todo))
             /\ UNCHANGED <<kvvars, forced, mem, n>>
\* acknowledged: what a crash may restore is the new map only
Return == /\ todo = <<"begun">> /\ todo' = <<>>
          /\ forced' = IF Sync THEN Len(journal) ELSE forced
          /\ mem' = Recovered(journal)
          /\ Reopen /\ UNCHANGED <<journal, n>>
Crash == \E c \in forced..Len(journal) :
           LET j == SubSeq(journal, 1, c) IN
           \* recovery drops an incomplete record at the end
           LET whole == CHOOSE w \in 0..c : /\ (w = 0 \/ j[w].end)
                                            /\ \A x \in w+1..c : ~j[x].end
           IN /\ journal' = SubSeq(j, 1, whole) /\ forced' = whole
              /\ mem' = Recovered(journal') /\ todo' = <<>> /\ n' = n
              /\ map' = mem' /\ old' = map'
LNext == (\E ops \in Batches : Begin(ops)) \/ Appending \/ Return \/ Crash
LSpec == LInit /\ [][LNext]_vars
\* what readers see is the map (the old one while a write is in progress)
Reads == mem = IF todo = <<>> THEN map ELSE old
\* what a crash leaves is allowed by Kv
Durable == [][(todo = <<>> /\ todo' = <<>> /\ mem' # mem) => FALSE]_vars
Atomic == [][(map' # map /\ todo' = <<>>) => map' \in {map, old}]_vars
=============================================================================
