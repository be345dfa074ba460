---------------------------- MODULE KafkaTrace ----------------------------
(* Validates recorded behaviour of Kafka consumers (kind "kstart") and of   *)
(* heartbeat counts (kind "kping") against KafkaLog.                        *)
EXTENDS KafkaLog, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop   == IOEnv.PROP

VARIABLES ti, l,
          rem,    \* kstart: per partition, blocks on the log still to be read
          rdy, pings, acc
vars == <<ti, l, rem, rdy, pings, acc>>
T   == Traces[ti]
Ev  == T.ev[l]
Cfg == T.cfg
Kind == Cfg.kind
SetOf(q) == {q[i] : i \in DOMAIN q}
On(p) == Prop = p

First(i) == FirstOffset(Cfg.parts[i], Cfg.rollback, Cfg.hash)
MustFail == Kind = "kstart" /\ \E i \in DOMAIN Cfg.parts : First(i) = -1
Init == /\ ti \in 1..Len(Traces) /\ l = 1 /\ acc = FALSE /\ rdy = FALSE /\ pings = {}
        /\ rem = IF Kind = "kstart" THEN [i \in DOMAIN Cfg.parts |-> {o \in SetOf(Cfg.parts[i].blk) : o >= First(i)}] ELSE <<>>
IsEvent(e) == ~acc /\ l <= Len(T.ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED <<ti, acc>>

Refused == IsEvent("refused") /\ (On("C18") => Cfg.badtok) /\ UNCHANGED <<rem, rdy, pings>>
Failed  == IsEvent("failed") /\ (On("C18") => MustFail) /\ UNCHANGED <<rem, rdy, pings>>
Process ==
  /\ IsEvent("p")
  /\ On("C18") => /\ Ev.i \in DOMAIN rem
                  /\ \/ MustFail
                     \/ Ev.o \in rem[Ev.i] /\ \A x \in rem[Ev.i] : x >= Ev.o
  /\ rem' = [rem EXCEPT ![Ev.i] = @ \ {Ev.o}] /\ UNCHANGED <<rdy, pings>>
Write == IsEvent("app") /\ rem' = [rem EXCEPT ![Ev.i] = @ \cup {Ev.o}] /\ UNCHANGED <<rdy, pings>>
Ready ==
  /\ IsEvent("ready")
  /\ On("C18") => ~rdy /\ \A i \in DOMAIN rem : \A x \in rem[i] : x >= Cfg.parts[i].end
  /\ rdy' = TRUE /\ UNCHANGED <<rem, pings>>
EndStart ==
  /\ Kind = "kstart" /\ IsEvent("fin")
  /\ On("C18") => ~MustFail /\ ~Cfg.badtok /\ rdy /\ \A i \in DOMAIN rem : rem[i] = {}
  /\ UNCHANGED <<rem, rdy, pings>>

Ping  == IsEvent("ping") /\ pings' = pings \cup {[id |-> Ev.id, t0 |-> Ev.t0, t1 |-> Ev.t1]} /\ UNCHANGED <<rem, rdy>>
Count == IsEvent("count") /\ (On("C24") => CountOK(pings, Ev.q0, Ev.q1, Ev.d, Ev.got)) /\ UNCHANGED <<rem, rdy, pings>>
\* each healthy producer writes a heartbeat, the others count it
Healthy == {i \in DOMAIN Cfg.healthy : Cfg.healthy[i]}
Beat == IsEvent("beat") /\ (On("C24") => Ev.ids = Cardinality(Healthy) /\ Ev.bad = 0) /\ UNCHANGED <<rem, rdy, pings>>
BeatCount == IsEvent("beatcount") /\ (On("C24") => Ev.got = Cardinality(Healthy \ {Ev.who})) /\ UNCHANGED <<rem, rdy, pings>>
\* a producer of several transports adds up what they count
SumUp == IsEvent("beatsum") /\ (On("C24") => Ev.got = Cardinality(DOMAIN T.cfg.healthy) * Cardinality(Healthy) - Cardinality(Healthy)) /\ UNCHANGED <<rem, rdy, pings>>
EndPing == Kind = "kping" /\ IsEvent("fin") /\ (On("C24") => Ev.lost = 0 /\ Ev.bad = 0) /\ UNCHANGED <<rem, rdy, pings>>

Accept == /\ ~acc /\ l = Len(T.ev) + 1 /\ PrintT(<<"ACCEPT", ti>>)
          /\ acc' = TRUE /\ UNCHANGED <<ti, l, rem, rdy, pings>>
Consume == Refused \/ Failed \/ Process \/ Write \/ Ready \/ EndStart \/ Ping \/ Count \/ Beat \/ BeatCount \/ SumUp \/ EndPing
Reject == /\ ~acc /\ l <= Len(T.ev) /\ ~ENABLED Consume /\ PrintT(<<"REJECT", ti, l, T.id>>)
          /\ acc' = TRUE /\ UNCHANGED <<ti, l, rem, rdy, pings>>
Next == Consume \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
