--------------------------- MODULE MuxProdTrace ---------------------------
(* Validates what a real producer of several transports adds to each.       *)
EXTENDS MuxProd, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop   == IOEnv.PROP

VARIABLES ti, l, m, acc
vars == <<ti, l, m, acc>>
T   == Traces[ti]
Ev  == T.ev[l]
BL  == T.cfg.blocks
Default == T.cfg.default

Init == ti \in 1..Len(Traces) /\ l = 1 /\ m = MuxInit(T.cfg.kafka, T.cfg.ws) /\ acc = FALSE
IsEvent(e) == ~acc /\ l <= Len(T.ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED <<ti, acc>>
Set(q) == {q[i] : i \in DOMAIN q}
NoDup(q) == Cardinality(Set(q)) = Len(q)
Nothing(x) == x.hdr = <<>> /\ x.msgs = <<>> /\ x.parts = <<>> /\ x.shdr = <<>> /\ x.other = 0

\* what log i got for AddBlock
AddOk(i, b, blk) ==
  LET x == Ev.tr[i] IN
  IF Writes(m.k[i], b, blk)
  THEN /\ x.other = 0 /\ Len(x.hdr) = 1
       /\ LET h == x.hdr[1] IN
          /\ h.topic = Default /\ h.b = b /\ h.num = blk.num /\ h.w = blk.w /\ h.par = blk.par
          /\ NoDup(h.recs) /\ Set(h.recs) = HeaderRecs(blk)
       /\ NoDup(x.msgs) /\ Set(x.msgs) = CountedMsgs(blk)
       /\ x.parts = <<>> /\ x.shdr = <<>>
  ELSE Nothing(x)
SendOk(i, id) ==
  LET x == Ev.tr[i] IN
  IF SendResult(m.k[i], id) = "write"
  THEN LET b == BlockOf(m.k[i].pend, id)
           sb == SubOf(BL[b], id)
       IN /\ x.other = 0 /\ x.hdr = <<>> /\ x.msgs = <<>>
          /\ x.shdr = <<<<sb.topic, b, id, Len(x.parts)>>>>
          /\ \A j \in DOMAIN x.parts : x.parts[j].topic = sb.topic /\ x.parts[j].b = b /\ x.parts[j].id = id
          /\ {x.parts[j].idx : j \in DOMAIN x.parts} = 0..(Len(x.parts) - 1)
          /\ NoDup(x.items) /\ Set(x.items) = SubItems(BL[b], sb.path)
  ELSE Nothing(x)

Add ==
  /\ IsEvent("add")
  /\ ErrOk(m, Ev.err, AddErrors(m, Ev.b, BL[Ev.b]))
  /\ \A i \in Working(m) : AddOk(i, Ev.b, BL[Ev.b])
  /\ m' = MuxAdd(m, Ev.b, BL[Ev.b])
Send ==
  /\ IsEvent("send")
  /\ ErrOk(m, Ev.err, SendErrors(m, Ev.id))
  /\ \A i \in Working(m) : SendOk(i, Ev.id)
  /\ m' = MuxSend(m, Ev.id)
Seen   == IsEvent("seen") /\ m' = MuxSeen(m, Ev.p, Ev.b)
Purge  == IsEvent("purge") /\ m' = MuxPurge(m)
Notice == IsEvent("notice") /\ ErrOk(m, Ev.err, {}) /\ (\A i \in Working(m) : Nothing(Ev.tr[i])) /\ m' = MuxNotice(m, Ev.b, Ev.n)
Fail   == IsEvent("fail") /\ m' = MuxFail(m, Ev.p)
LatestOf == /\ IsEvent("latest") /\ ~Ev.err
            /\ Ev.n = (IF Latest(m) = 0 THEN "0" ELSE BL[Latest(m)].num) /\ UNCHANGED m
Ws     == /\ IsEvent("ws") /\ UNCHANGED m
          /\ [j \in DOMAIN Ev.got |-> <<Ev.got[j].k, Ev.got[j].b, Ev.got[j].s>>] = m.ws.log

Accept == ~acc /\ l = Len(T.ev) + 1 /\ PrintT(<<"ACCEPT", ti>>) /\ acc' = TRUE /\ UNCHANGED <<ti, l, m>>
Consume == Add \/ Send \/ Seen \/ Purge \/ Notice \/ Fail \/ LatestOf \/ Ws
Reject == ~acc /\ l <= Len(T.ev) /\ ~ENABLED Consume /\ PrintT(<<"REJECT", ti, l, T.id>>) /\ acc' = TRUE /\ UNCHANGED <<ti, l, m>>
Next == Consume \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
