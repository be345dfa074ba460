----------------------------- MODULE KafkaProd -----------------------------
(* A producer that writes to a shared log: Producer, except that blocks     *)
(* whose header was recently seen on the log are not written again, nor are *)
(* their subbatches.                                                        *)
EXTENDS Producer

\* st: [pend, seen (blocks), skip (batch ids)]
Empty == [pend |-> {}, seen |-> {}, skip |-> {}]
Writes(st, b, blk) == b \notin st.seen /\ Accepted(blk)
OnAdd(st, b, blk) ==
  IF b \in st.seen THEN [st EXCEPT !.skip = @ \cup Ids(blk)]
  ELSE [st EXCEPT !.pend = AfterAdd(@, b, blk), !.seen = IF Accepted(blk) THEN @ \cup {b} ELSE @]  \* what it writes it sees itself
OnSend(st, id) == [st EXCEPT !.pend = AfterSend(@, id)]
OnSeen(st, b) == [st EXCEPT !.seen = @ \cup {b}]
OnPurge(st) == [st EXCEPT !.seen = {}, !.skip = {}]
SendResult(st, id) == IF Pending(st.pend, id) THEN "write" ELSE IF id \in st.skip THEN "skip" ELSE "unknown"
=============================================================================
