-------------------------- MODULE ChainTrace --------------------------
(* Validates what an application that crashes and restarts gets from a log or feed:*)
(* a gap-free continuation of its chain with the contents as published, up  *)
(* to the heaviest block. The application's chain survives its crashes.     *)
EXTENDS Ordering, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop   == IOEnv.PROP

VARIABLES ti, l,
          head,    \* last block that the application applied
          up, acc
vars == <<ti, l, head, up, acc>>
T   == Traces[ti]
Ev  == T.ev[l]
BL  == T.cfg.blocks

Init == ti \in 1..Len(Traces) /\ l = 1 /\ acc = FALSE /\ up = FALSE
        /\ head = IF T.ev[1].e = "start" THEN T.ev[1].head ELSE 0
IsEvent(e) == ~acc /\ l <= Len(T.ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED <<ti, acc>>

Start == IsEvent("start") /\ ~up /\ Ev.head = head /\ up' = TRUE /\ UNCHANGED head
Crash == IsEvent("crash") /\ up /\ up' = FALSE /\ UNCHANGED head

Upd ==
  /\ IsEvent("upd") /\ up
  /\ Continuous(BL, head, Ev) /\ Ev.add # <<>>
  /\ \A i \in DOMAIN Ev.add : Ev.fp[i] = BL[Ev.add[i]].fp
  /\ head' = Last(Ev.add) /\ UNCHANGED up
\* the consumer says that it was handed what was there when it came (it may still
\* be processing it): not before the server said so, having sent the chain up to tip
Ready == /\ IsEvent("ready") /\ up /\ Ev.tip # 0
         /\ UNCHANGED <<head, up>>
\* everything was published and the branches grew once more
Fin == IsEvent("fin") /\ up /\ head = Ev.best
       /\ \A b \in DOMAIN BL : BL[b].w <= BL[head].w
       /\ (IF "rdy" \in DOMAIN Ev THEN Ev.rdy ELSE TRUE)
       /\ UNCHANGED <<head, up>>

\* a mux counts the producers of all of its logs
Count == IsEvent("count") /\ Ev.got = Ev.want /\ UNCHANGED <<head, up>>
\* a wait for the block that was just processed, whatever transport it came by
Wait == IsEvent("wait") /\ Ev.ok /\ UNCHANGED <<head, up>>

Accept == ~acc /\ l = Len(T.ev) + 1 /\ PrintT(<<"ACCEPT", ti>>) /\ acc' = TRUE /\ UNCHANGED <<ti, l, head, up>>
Consume == Start \/ Crash \/ Upd \/ Ready \/ Fin \/ Count \/ Wait
Reject == ~acc /\ l <= Len(T.ev) /\ ~ENABLED Consume /\ PrintT(<<"REJECT", ti, l, T.id>>) /\ acc' = TRUE /\ UNCHANGED <<ti, l, head, up>>
Next == Consume \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
