-------------------------- MODULE KafkaProdTrace --------------------------
(* Validates what a real Kafka producer adds to the log against KafkaProd.  *)
EXTENDS KafkaProd, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop   == IOEnv.PROP

VARIABLES ti, l, st, acc
vars == <<ti, l, st, acc>>
T   == Traces[ti]
Ev  == T.ev[l]
BL  == T.cfg.blocks
Default == T.cfg.default

Init == ti \in 1..Len(Traces) /\ l = 1 /\ st = Empty /\ acc = FALSE
IsEvent(e) == ~acc /\ l <= Len(T.ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED <<ti, acc>>
Set(q) == {q[i] : i \in DOMAIN q}
NoDup(q) == Cardinality(Set(q)) = Len(q)
Nothing == Ev.hdr = <<>> /\ Ev.msgs = <<>> /\ Ev.parts = <<>> /\ Ev.shdr = <<>> /\ Ev.other = 0

Add ==
  /\ IsEvent("add")
  /\ LET blk == BL[Ev.b] IN
     IF Writes(st, Ev.b, blk)
     THEN /\ Ev.err = "ok" /\ Ev.other = 0
          /\ Len(Ev.hdr) = 1
          /\ LET h == Ev.hdr[1] IN
             /\ h.topic = Default /\ h.b = Ev.b /\ h.num = blk.num /\ h.w = blk.w /\ h.par = blk.par
             /\ NoDup(h.recs) /\ Set(h.recs) = HeaderRecs(blk)
          /\ NoDup(Ev.msgs) /\ Set(Ev.msgs) = CountedMsgs(blk)
          /\ Ev.parts = <<>> /\ Ev.shdr = <<>>
     ELSE /\ Nothing
          /\ IF Ev.b \in st.seen THEN Ev.err = "ok" ELSE Ev.err \in Errors(blk)
  /\ st' = OnAdd(st, Ev.b, BL[Ev.b])

Send ==
  /\ IsEvent("send")
  /\ LET res == SendResult(st, Ev.id) IN
     IF res = "write"
     THEN LET b == BlockOf(st.pend, Ev.id)
              sb == SubOf(BL[b], Ev.id)
          IN /\ Ev.err = "ok" /\ Ev.other = 0
             /\ Ev.hdr = <<>> /\ Ev.msgs = <<>>
             /\ Ev.shdr = <<<<sb.topic, b, Ev.id, Len(Ev.parts)>>>>
             /\ \A i \in DOMAIN Ev.parts : Ev.parts[i].topic = sb.topic /\ Ev.parts[i].b = b /\ Ev.parts[i].id = Ev.id
             /\ {Ev.parts[i].idx : i \in DOMAIN Ev.parts} = 0..(Len(Ev.parts) - 1)
             /\ NoDup(Ev.items) /\ Set(Ev.items) = SubItems(BL[b], sb.path)
     ELSE /\ Nothing
          /\ Ev.err = IF res = "skip" THEN "ok" ELSE "unknown"
  /\ st' = OnSend(st, Ev.id)

Seen   == IsEvent("seen") /\ st' = OnSeen(st, Ev.b)
Purge  == IsEvent("purge") /\ st' = OnPurge(st)
\* large reorgs are not supported on Kafka: the call has no effect
Notice == IsEvent("notice") /\ Ev.err = "ok" /\ Nothing /\ UNCHANGED st

Accept == ~acc /\ l = Len(T.ev) + 1 /\ PrintT(<<"ACCEPT", ti>>) /\ acc' = TRUE /\ UNCHANGED <<ti, l, st>>
Consume == Add \/ Send \/ Seen \/ Purge \/ Notice
Reject == ~acc /\ l <= Len(T.ev) /\ ~ENABLED Consume /\ PrintT(<<"REJECT", ti, l, T.id>>) /\ acc' = TRUE /\ UNCHANGED <<ti, l, st>>
Next == Consume \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
