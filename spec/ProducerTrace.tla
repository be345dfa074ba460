--------------------------- MODULE ProducerTrace ---------------------------
(* Validates recorded calls of the real producer against Producer.          *)
EXTENDS Producer, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop   == IOEnv.PROP

VARIABLES ti, l, pend, acc
vars == <<ti, l, pend, acc>>
T   == Traces[ti]
Ev  == T.ev[l]
BL  == T.cfg.blocks
Default == T.cfg.default

Init == ti \in 1..Len(Traces) /\ l = 1 /\ pend = {} /\ acc = FALSE
IsEvent(e) == ~acc /\ l <= Len(T.ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED <<ti, acc>>
Set(q) == {q[i] : i \in DOMAIN q}
NoDup(q) == Cardinality(Set(q)) = Len(q)

Starts(a, b) == Len(b) <= Len(a) /\ SubSeq(a, 1, Len(b)) = b
\* a schema in which one expression is a prefix of another is rejected
New ==
  /\ IsEvent("new")
  /\ LET overlap == \E i, j \in DOMAIN Ev.schema : i # j /\ Starts(Ev.schema[i], Ev.schema[j])
     IN Ev.err = (IF overlap THEN "overlap" ELSE "ok")
  /\ UNCHANGED pend

Add ==
  /\ IsEvent("add")
  /\ Ev.other = 0
  /\ LET blk == BL[Ev.b] IN
     IF Accepted(blk)
     THEN /\ Ev.err = "ok"
          /\ Len(Ev.hdr) = 1
          /\ LET h == Ev.hdr[1] IN
             /\ h.topic = Default /\ h.num = blk.num /\ h.w = blk.w /\ h.par = blk.par
             /\ NoDup(h.recs) /\ Set(h.recs) = HeaderRecs(blk)
          /\ NoDup(Ev.msgs) /\ Set(Ev.msgs) = CountedMsgs(blk)
          /\ Ev.parts = <<>> /\ Ev.shdr = <<>>
     ELSE /\ Ev.err \in Errors(blk)
          /\ Ev.hdr = <<>> /\ Ev.msgs = <<>> /\ Ev.parts = <<>> /\ Ev.shdr = <<>>
  /\ pend' = AfterAdd(pend, Ev.b, BL[Ev.b])

Send ==
  /\ IsEvent("send")
  /\ Ev.other = 0
  /\ IF Pending(pend, Ev.id)
     THEN LET b == BlockOf(pend, Ev.id)
              sb == SubOf(BL[b], Ev.id)
          IN /\ Ev.err = "ok"
             /\ Ev.hdr = <<>> /\ Ev.msgs = <<>>
             /\ Ev.shdr = <<<<sb.topic, b, Ev.id, Len(Ev.parts)>>>>
             /\ \A i \in DOMAIN Ev.parts : Ev.parts[i].topic = sb.topic /\ Ev.parts[i].b = b /\ Ev.parts[i].id = Ev.id
             /\ {Ev.parts[i].idx : i \in DOMAIN Ev.parts} = 0..(Len(Ev.parts) - 1)
             /\ NoDup(Ev.items) /\ Set(Ev.items) = SubItems(BL[b], sb.path)
     ELSE Ev.err = "unknown" /\ Ev.hdr = <<>> /\ Ev.msgs = <<>> /\ Ev.parts = <<>> /\ Ev.shdr = <<>>
  /\ pend' = AfterSend(pend, Ev.id)

\* a large reorg notice names the block and carries its number
Reorg ==
  /\ IsEvent("reorg")
  /\ Ev.kinds = <<"reorg", "done">> /\ Ev.hok /\ Ev.nums = <<Ev.num, Ev.num>>
  /\ UNCHANGED pend

Accept == ~acc /\ l = Len(T.ev) + 1 /\ PrintT(<<"ACCEPT", ti>>) /\ acc' = TRUE /\ UNCHANGED <<ti, l, pend>>
Consume == New \/ Add \/ Send \/ Reorg
Reject == ~acc /\ l <= Len(T.ev) /\ ~ENABLED Consume /\ PrintT(<<"REJECT", ti, l, T.id>>) /\ acc' = TRUE /\ UNCHANGED <<ti, l, pend>>
Next == Consume \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
