---------------------------- MODULE WsFeedTrace ----------------------------
(* Validates what one subscriber of a websocket feed is sent: the history    *)
(* from the block it asked for without holes, then ready, then every call of *)
(* the producer from some point on, in order and as it was made; nothing of  *)
(* the chain falls between the two.                                          *)
EXTENDS WsFeed, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop   == IOEnv.PROP

VARIABLES ti, l, st, acc
vars == <<ti, l, st, acc>>
T   == Traces[ti]
Ev  == T.ev[l]
C   == T.cfg

Init == ti \in 1..Len(Traces) /\ l = 1 /\ acc = FALSE /\ st = FeedInit
IsEvent(e) == ~acc /\ l <= Len(T.ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED <<ti, acc>>

Batch == /\ IsEvent("batch")
         /\ IF st.rdy THEN Ev.head /\ LiveOk(C, st, [k |-> "add", b |-> Ev.b, s |-> 0]) /\ st' = Live(C, st, [k |-> "add", b |-> Ev.b, s |-> 0])
            ELSE Ev.whole /\ HistoryOk(C, st, Ev.b) /\ st' = History(st, Ev.b)
Sub   == /\ IsEvent("sub") /\ Ev.ok /\ st.rdy
         /\ LiveOk(C, st, [k |-> "sub", b |-> Ev.b, s |-> Ev.s]) /\ st' = Live(C, st, [k |-> "sub", b |-> Ev.b, s |-> Ev.s])
Notice == /\ IsEvent("reorg") /\ st.rdy
          /\ LiveOk(C, st, C.ops[Ev.n]) /\ st' = Live(C, st, C.ops[Ev.n])
Ready == IsEvent("ready") /\ ReadyOk(C, st) /\ st' = [st EXCEPT !.rdy = TRUE]
\* everything was published: nothing is missing
End   == IsEvent("end") /\ EndOk(C, st) /\ UNCHANGED st
Left  == IsEvent("left") /\ UNCHANGED st
\* calls of the producer fail exactly for subbatches that no block announced
Call  == IsEvent("call") /\ (Ev.err <=> ~Ev.known) /\ UNCHANGED st
\* a block asked for by its number comes whole, or an error when there is none
Block == IsEvent("block") /\ Ev.got = Ev.want /\ UNCHANGED st

Accept == ~acc /\ l = Len(T.ev) + 1 /\ PrintT(<<"ACCEPT", ti>>) /\ acc' = TRUE /\ UNCHANGED <<ti, l, st>>
Consume == Batch \/ Sub \/ Notice \/ Ready \/ End \/ Left \/ Call \/ Block
Reject == ~acc /\ l <= Len(T.ev) /\ ~ENABLED Consume /\ PrintT(<<"REJECT", ti, l, T.id>>) /\ acc' = TRUE /\ UNCHANGED <<ti, l, st>>
Next == Consume \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
