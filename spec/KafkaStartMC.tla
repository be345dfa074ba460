--------------------------- MODULE KafkaStartMC ---------------------------
(* Starting a Kafka consumer: partitions are set up one after another, warm *)
(* up behind a barrier, are held together by a limit on how far one may run *)
(* ahead, and the consumer reports that it is ready once every partition    *)
(* caught up and what they forwarded has been processed.                    *)
(* Lens: records on each partition when it is set up; a record may be added *)
(* later. EarlyBarrier and EmptyWaits are the two behaviours that fixes     *)
(* 40e148e and 034dbd0 removed (FALSE: as fixed).                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Parts, MaxLen, Ahead, EarlyBarrier, EmptyWaits, MaxAdd

VARIABLES len,     \* records on the partition
          len0,    \* records when the consumer was started
          setup,   \* partitions set up so far (1..setup)
          stage,   \* "no" | "cold" | "barrier" | "warm"
          pos,     \* records taken
          done,    \* has reported that it is caught up
          q,       \* forwarded, not processed
          proc, ready, added
vars == <<len, len0, setup, stage, pos, done, q, proc, ready, added>>
P == 1..Parts

Init == /\ len \in [P -> 0..MaxLen] /\ len0 = len /\ setup = 0
        /\ stage = [i \in P |-> "no"] /\ pos = [i \in P |-> 0] /\ done = [i \in P |-> FALSE]
        /\ q = <<>> /\ proc = [i \in P |-> 0] /\ ready = FALSE /\ added = 0

Empty(i) == len[i] = 0
SetUp == /\ setup < Parts /\ setup' = setup + 1
         /\ stage' = [stage EXCEPT ![setup + 1] = IF Empty(setup + 1) /\ ~EmptyWaits THEN "empty" ELSE "cold"]
         /\ UNCHANGED <<len, len0, pos, done, q, proc, ready, added>>
Add(i) == /\ added < MaxAdd /\ added' = added + 1 /\ len' = [len EXCEPT ![i] = @ + 1]
          /\ UNCHANGED <<len0, setup, stage, pos, done, q, proc, ready>>

\* partitions that hold the barrier: those registered and not yet waiting at it
Holding == {i \in P : stage[i] = "cold"} \cup (IF ~EarlyBarrier /\ setup < Parts THEN {0} ELSE {})
Reach(i) == /\ stage[i] = "cold" /\ pos[i] < len[i]
            /\ stage' = [stage EXCEPT ![i] = "barrier"]
            /\ UNCHANGED <<len, len0, setup, pos, done, q, proc, ready, added>>
ReachEmpty(i) == /\ stage[i] = "empty" /\ stage' = [stage EXCEPT ![i] = "barrierE"]
                 /\ UNCHANGED <<len, len0, setup, pos, done, q, proc, ready, added>>
Pass(i) == /\ stage[i] \in {"barrier", "barrierE"} /\ Holding = {} /\ \A j \in P : stage[j] # "empty"
           /\ stage' = [stage EXCEPT ![i] = "warm"]
           /\ done' = [done EXCEPT ![i] = @ \/ stage[i] = "barrierE"]
           /\ UNCHANGED <<len, len0, setup, pos, q, proc, ready, added>>
\* one not caught up yet may not be left behind
InStep(i) == ready \/ \A j \in P : (stage[j] # "no" /\ ~done[j]) => pos[i] <= pos[j] + Ahead
Take(i) == /\ stage[i] = "warm" /\ pos[i] < len[i] /\ InStep(i)
           /\ pos' = [pos EXCEPT ![i] = @ + 1] /\ q' = Append(q, i)
           /\ done' = [done EXCEPT ![i] = @ \/ pos[i] + 1 = len[i]]
           /\ UNCHANGED <<len, len0, setup, stage, proc, ready, added>>
Proc == /\ q # <<>> /\ proc' = [proc EXCEPT ![Head(q)] = @ + 1] /\ q' = Tail(q)
        /\ UNCHANGED <<len, len0, setup, stage, pos, done, ready, added>>
Idle == q = <<>> /\ \A i \in P : ~(stage[i] = "warm" /\ pos[i] < len[i] /\ InStep(i))
Ready == /\ ~ready /\ setup = Parts /\ \A i \in P : done[i] /\ Idle /\ ready' = TRUE
         /\ UNCHANGED <<len, len0, setup, stage, pos, done, q, proc, added>>
Next == SetUp \/ Proc \/ Ready \/ \E i \in P : Add(i) \/ Reach(i) \/ ReachEmpty(i) \/ Pass(i) \/ Take(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(SetUp) /\ WF_vars(Proc) /\ WF_vars(Ready)
             /\ \A i \in P : WF_vars(Reach(i)) /\ WF_vars(ReachEmpty(i)) /\ WF_vars(Pass(i)) /\ WF_vars(Take(i))

TypeOK == \A i \in P : proc[i] <= pos[i] /\ pos[i] <= len[i]
\* C18: ready only after everything that was there at the start was processed
ReadyCaughtUp == ready => \A i \in P : proc[i] >= len0[i]
BarrierHolds == \A i \in P : stage[i] = "warm" => setup = Parts
EventuallyReady == <>ready
=============================================================================
