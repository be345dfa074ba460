--------------------------- MODULE OrderingTrace ---------------------------
(* Validates recorded executions of the real ordering code.                 *)
EXTENDS Ordering, Integers, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop   == IOEnv.PROP
On(p)  == Prop = p

VARIABLES ti, l, del, head, nboot, acc,
          base, since   \* last large-reorg notice (0: none) and the blocks handed over after it
vars == <<ti, l, del, head, nboot, acc, base, since>>

T   == Traces[ti]
Cfg == T.cfg
Ev  == T.ev[l]
BL  == Cfg.blocks
Kind == Cfg.kind
WL  == {<<Cfg.wl[i][1], Cfg.wl[i][2]>> : i \in DOMAIN Cfg.wl}
Excl == Excluded(BL, WL)

Init == /\ ti \in 1..Len(Traces) /\ l = 1 /\ del = {} /\ acc = FALSE /\ nboot = 0 /\ base = 0 /\ since = {}
        /\ head = IF "start" \in DOMAIN Traces[ti].cfg THEN Traces[ti].cfg.start ELSE 0

IsEvent(e) == ~acc /\ l <= Len(T.ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED <<ti, acc>>

\* blocks whose connection to the chain is established: the starting block once
\* it was handed over again (its ancestors below it count if they came in order)
Anchors == IF Cfg.start = 0 /\ Kind \notin {"whitelist", "fresh"} THEN {} ELSE SetOf(Cfg.pre)
Conn(d) == Closure(BL, d \ Excl, Anchors) \ Excl

RECURSIVE Heads(_, _)
Heads(h, up) == IF up = <<>> THEN h ELSE Heads(Last(up[1].add), Tail(up))

\* bootstrap: the first few blocks may be emitted although they do not connect
Disconnected(h, u) == u.rem = <<>> /\ ~Continuous(BL, h, u) /\ Contiguous(BL, u.add)
RECURSIVE UpsContinuous(_, _, _, _)
UpsContinuous(h, up, d, nb) ==
  IF up = <<>> THEN TRUE
  ELSE IF ~(SetOf(up[1].add) \subseteq d) THEN FALSE
  ELSE IF Continuous(BL, h, up[1]) THEN UpsContinuous(Last(up[1].add), Tail(up), d, nb)
  ELSE IF Kind = "bootstrap" /\ nb < 10 /\ Disconnected(h, up[1])
       THEN UpsContinuous(Last(up[1].add), Tail(up), d, nb + 1)
  ELSE FALSE
RECURSIVE UpsJustified(_, _)
UpsJustified(h, up) ==
  IF up = <<>> THEN TRUE
  ELSE Justified(BL, h, up[1]) /\ UpsJustified(Last(up[1].add), Tail(up))
RECURSIVE CountBoot(_, _)
CountBoot(h, up) == IF up = <<>> THEN 0
                    ELSE (IF Continuous(BL, h, up[1]) THEN 0 ELSE 1) + CountBoot(Last(up[1].add), Tail(up))

\* after a notice: every update goes on from where the consumer is and takes
\* back no block that came after the notice
RECURSIVE Extends(_, _, _), AllAdded(_)
Extends(h, up, keep) == IF up = <<>> THEN TRUE
                  ELSE /\ SetOf(up[1].rem) \cap keep = {} /\ Continuous(BL, h, up[1])
                       /\ Extends(Last(up[1].add), Tail(up), keep)
AllAdded(up) == IF up = <<>> THEN <<>> ELSE up[1].add \o AllAdded(Tail(up))

WellFormed(up) == \A i \in DOMAIN up : /\ up[i].add # <<>>
                                       /\ \A j \in DOMAIN up[i].add : up[i].add[j] \in DOMAIN BL
                                       /\ \A j \in DOMAIN up[i].rem : up[i].rem[j] \in DOMAIN BL

Deliver ==
  /\ IsEvent("dlv")
  /\ LET d1 == del \cup {Ev.b}
         up == Ev.up
         h1 == Heads(head, up)
     IN
     /\ WellFormed(up)
     /\ On("C09") => UpsContinuous(head, up, d1, nboot)
     /\ On("C10") => UpsJustified(head, up)
     /\ On("C11") => (Kind = "ordering" => Ev.st = "ok" /\ Heaviest(BL, h1, Conn(d1)))
     /\ On("C12") => (Kind = "whitelist" =>
                        /\ Ev.st = "ok"
                        /\ \A i \in DOMAIN up : SetOf(up[i].add) \cap Excl = {}
                        /\ Heaviest(BL, h1, Conn(d1)))
     /\ On("C13") => (Ev.b \in del => up = <<>> /\ Ev.st = "ok")
     /\ On("C14") => (Kind = "depth" => Ev.st = "ok" /\ Heaviest(BL, h1, Conn(d1)))
     /\ On("C25") => (Kind = "startup" /\ l = Len(T.ev) => Ev.st = "ok" /\ h1 = Ev.b)
     /\ On("C28") => (Kind = "fresh" =>
                        /\ Ev.st = "ok"
                        /\ UpsContinuous(head, up, d1, 0)
                        /\ (head # 0 => UpsJustified(head, up))
                        /\ h1 # 0 /\ Heaviest(BL, h1, Conn(d1))
                        /\ (Ev.b \in del => up = <<>>))
     /\ On("C26") => (base # 0 =>
                        LET c == Closure(BL, since \cup {Ev.b}, {base}) IN
                        /\ Ev.st = "ok"
                        /\ Extends(head, up, since)
                        /\ SetOf(AllAdded(up)) \subseteq d1
                        /\ h1 \in Closure(BL, d1, {base}) /\ Heaviest(BL, h1, c))
     /\ del' = d1 /\ since' = since \cup {Ev.b} /\ base' = base
     /\ head' = h1
     /\ nboot' = nboot + CountBoot(head, up)

Reorg ==
  /\ IsEvent("reorg")
  /\ On("C26") => Ev.got = <<Ev.b>> /\ Ev.up = <<>>
  /\ head' = Ev.b /\ base' = Ev.b /\ since' = {}
  /\ UNCHANGED <<del, nboot>>

\* what an application saw of a run of messages with notices among them (kind
\* "notices"); base counts the notices received
Seg == Cfg.segs[base + 1]
End == IF Seg.blocks = <<>> THEN Seg.base ELSE Last(Seg.blocks)
Notices == Prop \in {"C26", "C27"}
AppUpdate ==
  /\ IsEvent("aup")
  /\ Notices => /\ WellFormed(<<Ev.up>>) /\ Extends(head, <<Ev.up>>, SetOf(Seg.blocks))
                /\ SetOf(Ev.up.add) \subseteq SetOf(Seg.blocks)
  /\ head' = IF WellFormed(<<Ev.up>>) THEN Last(Ev.up.add) ELSE -1
  /\ UNCHANGED <<del, nboot, base, since>>
AppReorg ==
  /\ IsEvent("areorg")
  /\ Notices => base + 2 <= Len(Cfg.segs) /\ Ev.b = Cfg.segs[base + 2].base /\ head = End
  /\ head' = Ev.b /\ base' = base + 1
  /\ UNCHANGED <<del, nboot, since>>
AtEnd == base + 1 = Len(Cfg.segs) /\ head = End
\* a consumer that was started when all of it was on the log is not ready before
\* it is through
AppReady ==
  /\ IsEvent("ready")
  /\ Prop = "C27" => nboot = 0 /\ (Ev.cold => AtEnd)
  /\ nboot' = 1 /\ UNCHANGED <<del, head, base, since>>
AppEnd ==
  /\ IsEvent("fin")
  /\ Notices => AtEnd
  /\ Prop = "C27" => nboot = 1
  /\ UNCHANGED <<del, nboot, head, base, since>>

\* the consumer runs by itself: blocks are handed to the processor, updates come
\* when the application gets to them; nboot = 1: it was at rest and nothing new
\* was handed over since
Submit ==
  /\ IsEvent("sub")
  /\ del' = del \cup {Ev.b} /\ nboot' = IF Ev.b \in del THEN nboot ELSE 0
  /\ UNCHANGED <<head, base, since>>
Update ==
  /\ IsEvent("pup")
  /\ WellFormed(<<Ev.up>>)
  /\ On("C09") => UpsContinuous(head, <<Ev.up>>, del, 10)
  /\ On("C10") => UpsJustified(head, <<Ev.up>>)
  /\ On("C12") => SetOf(Ev.up.add) \cap Excl = {}
  /\ On("C13") => nboot = 0
  /\ On("C28") => UpsContinuous(head, <<Ev.up>>, del, 10) /\ (head # 0 => UpsJustified(head, <<Ev.up>>))
  /\ head' = Last(Ev.up.add)
  /\ UNCHANGED <<del, nboot, base, since>>
Rest ==
  /\ IsEvent("rest")
  /\ (On("C11") /\ Kind = "ordering") \/ (On("C12") /\ Kind = "whitelist") \/ (On("C14") /\ Kind = "depth") \/ (On("C28") /\ Kind = "fresh")
       => head # 0 /\ Heaviest(BL, head, Conn(del))
  /\ (On("C25") /\ Kind = "startup" /\ l = Len(T.ev)) => head \in del /\ Heaviest(BL, head, del)
  /\ nboot' = 1 /\ UNCHANGED <<head, del, base, since>>

\* an update that is empty or carries an unknown or altered block is judged by
\* C09 only; for the other properties the trace ends here
Malformed ==
  /\ ~acc /\ l <= Len(T.ev) /\ (IF Ev.e = "dlv" THEN ~WellFormed(Ev.up) ELSE IF Ev.e = "pup" THEN ~WellFormed(<<Ev.up>>) ELSE FALSE) /\ Prop # "C09"
  /\ PrintT(<<"ACCEPT", ti>>)
  /\ acc' = TRUE /\ l' = l + 1 /\ UNCHANGED <<ti, del, head, nboot, base, since>>

Dead == /\ (IsEvent("crash") \/ IsEvent("hang"))
        /\ Prop \in {"C09", "C10"}
        /\ UNCHANGED <<del, head, nboot, base, since>>

Accept == /\ ~acc /\ l = Len(T.ev) + 1 /\ PrintT(<<"ACCEPT", ti>>)
          /\ acc' = TRUE /\ UNCHANGED <<ti, l, del, head, nboot, base, since>>
Consume == Deliver \/ Reorg \/ AppUpdate \/ AppReorg \/ AppReady \/ AppEnd \/ Submit \/ Update \/ Rest \/ Malformed \/ Dead
Reject == /\ ~acc /\ l <= Len(T.ev) /\ ~ENABLED Consume /\ PrintT(<<"REJECT", ti, l, T.id>>)
          /\ acc' = TRUE /\ UNCHANGED <<ti, l, del, head, nboot, base, since>>
Next == Consume \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
