----------------------------- MODULE KafkaLog -----------------------------
(* Abstract specification of reading a Kafka log: where a consumer begins   *)
(* on each partition, when it may report that it is ready, and how many     *)
(* producers are alive.                                                     *)
EXTENDS Integers, Sequences, FiniteSets

\* first record of a partition [start, end) to read, given the offset of its
\* token (-1: none); -1 if the token cannot be honoured
FirstOffset(p, rollback, hasHash) ==
  IF p.tok >= 0 /\ p.tok >= rollback
  THEN IF p.tok - rollback >= p.start /\ p.tok - rollback <= p.end THEN p.tok - rollback
       ELSE IF p.tok >= p.start /\ p.tok <= p.end THEN p.tok      \* the log no longer reaches back by the rollback
       ELSE -1                                                    \* records would be skipped
  ELSE IF ~hasHash /\ rollback >= 0
       THEN IF p.end - 1 >= p.start THEN p.end - 1 ELSE p.end     \* start following now
       ELSE p.start                                               \* history is needed

\* heartbeats [id, t0, t1]: written at t0, known to have been read at t1
MustCount(pings, q1, d) == {p.id : p \in {x \in pings : x.t0 > q1 - d}}
MayCount(pings, q0, d)  == {p.id : p \in {x \in pings : x.t1 > q0 - d}}
CountOK(pings, q0, q1, d, got) ==
  /\ got >= Cardinality(MustCount(pings, q1, d))
  /\ got <= Cardinality(MayCount(pings, q0, d))
=============================================================================
