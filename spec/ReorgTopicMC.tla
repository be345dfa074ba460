--------------------------- MODULE ReorgTopicMC ---------------------------
(* A large reorg on Kafka: the producer announces it on the default topic   *)
(* and writes it to a topic of its own; a consumer that meets the           *)
(* announcement reads that topic before it goes on.  "A" is the             *)
(* announcement, "R" and "C" the first and last message of the reorg's own  *)
(* topic.  FromNewest and ReadyWhenIdle are the two behaviours that the     *)
(* code had: reading starts at the last message that is there, and ends     *)
(* when nothing more is there, complete or not.                             *)
EXTENDS Integers, Sequences, TLC
CONSTANTS SideBlocks, FromNewest, ReadyWhenIdle, Printing

Main == <<"b1", "A", "b2", "b3">>
SideLog == <<"R">> \o [i \in 1..SideBlocks |-> "s" \o ToString(i)] \o <<"C">>
Expected == <<"b1", "R">> \o [i \in 1..SideBlocks |-> "s" \o ToString(i)] \o <<"b2", "b3">>

VARIABLES m, s,        \* written to the default topic, to the reorg's own
          pos, spos,   \* read of either
          mode,        \* "main" | "side" | "crashed"
          complete,    \* a ReorgComplete was read
          begun,       \* a Reorg was read on the reorg's own topic
          out,         \* handed to the application
          hist         \* writes, and whether the consumer had come to rest before each
vars == <<m, s, pos, spos, mode, complete, begun, out, hist>>

Init == /\ m = 0 /\ s = 0 /\ pos = 0 /\ spos = 0 /\ mode = "main" /\ complete = FALSE /\ begun = FALSE
        /\ out = <<>> /\ hist = <<>>
AtRest == IF mode = "main" THEN pos = m ELSE mode = "side" /\ spos = s
Log(x) == hist' = IF Printing THEN Append(hist, <<x, AtRest>>) ELSE hist
\* the topic exists when it is announced; what is on it may be visible before
\* or after the announcement; the chain goes on when the reorg was written
WriteMain == /\ m < Len(Main) /\ (m >= 2 => s = Len(SideLog))
             /\ m' = m + 1 /\ Log(Main[m + 1]) /\ UNCHANGED <<s, pos, spos, mode, complete, begun, out>>
WriteSide == /\ m >= 1 /\ s < Len(SideLog)
             /\ s' = s + 1 /\ Log(SideLog[s + 1]) /\ UNCHANGED <<m, pos, spos, mode, complete, begun, out>>
Read == /\ mode = "main" /\ pos < m /\ pos' = pos + 1
        /\ IF Main[pos + 1] = "A"
           THEN mode' = "side" /\ spos' = (IF FromNewest /\ s > 0 THEN s - 1 ELSE 0) /\ UNCHANGED out
           ELSE out' = Append(out, Main[pos + 1]) /\ UNCHANGED <<mode, spos>>
        /\ UNCHANGED <<m, s, complete, begun, hist>>
ReadSide == /\ mode = "side" /\ spos < s /\ spos' = spos + 1
            /\ LET x == SideLog[spos + 1] IN
               IF x = "C" THEN /\ complete' = TRUE /\ UNCHANGED <<out, begun>>
                               /\ mode' = IF ReadyWhenIdle /\ ~begun THEN "crashed" ELSE mode
               ELSE out' = Append(out, x) /\ begun' = (begun \/ x = "R") /\ UNCHANGED <<mode, complete>>
            /\ UNCHANGED <<m, s, pos, hist>>
Leave == /\ mode = "side" /\ spos = s /\ (complete \/ (ReadyWhenIdle /\ ~begun))
         /\ mode' = "main" /\ UNCHANGED <<m, s, pos, spos, complete, begun, out, hist>>
Next == WriteMain \/ WriteSide \/ Read \/ ReadSide \/ Leave
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InOrder == Len(out) <= Len(Expected) /\ out = SubSeq(Expected, 1, Len(out))
NeverCrashes == mode # "crashed"
EverythingArrives == <>(out = Expected)

RECURSIVE Str(_)
Str(h) == IF h = <<>> THEN "" ELSE
          "[\"" \o h[1][1] \o "\"," \o (IF h[1][2] THEN "1" ELSE "0") \o "]" \o (IF Len(h) > 1 THEN "," ELSE "") \o Str(Tail(h))
Done == m = Len(Main) /\ s = Len(SideLog) /\ pos = m /\ mode = "main"
Gen == Printing /\ Done => PrintT("SCHED {\"writes\":[" \o Str(hist) \o "]}")
=============================================================================
