---------------------------- MODULE WaiterTrace ----------------------------
(* Validates recorded waits against Waiter.                                 *)
EXTENDS Waiter, Integers, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop   == IOEnv.PROP

VARIABLES ti, l, anns,   \* announcements that began / were seen by the waiter
          annf, done, waits, acc
vars == <<ti, l, anns, annf, done, waits, acc>>
T   == Traces[ti]
Ev  == T.ev[l]
Num == T.cfg.num
SetOf(q) == {q[i] : i \in DOMAIN q}

Init == /\ ti \in 1..Len(Traces) /\ l = 1 /\ anns = {} /\ annf = {} /\ done = {} /\ waits = <<>> /\ acc = FALSE
IsEvent(e) == ~acc /\ l <= Len(T.ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED <<ti, acc>>

Ann   == IsEvent("ann") /\ anns' = anns \cup {Ev.b} /\ UNCHANGED <<annf, done, waits>>
AnnF  == IsEvent("annf") /\ annf' = annf \cup {Ev.b} /\ UNCHANGED <<anns, done, waits>>
DoneE == IsEvent("done") /\ done' = done \cup SetOf(Ev.bs) /\ UNCHANGED <<anns, annf, waits>>
Start == IsEvent("ws")
         /\ waits' = Append(waits, [k |-> Ev.k, t |-> Ev.t, to |-> Ev.to, long |-> Ev.long, ann |-> annf, done |-> done])
         /\ UNCHANGED <<anns, annf, done>>
Success(w)  == SuccessOK(Num, w, done)
NotFound(w) == NotFoundOK(Num, w, w.ann)
Timeout(w)  == TimeoutOK(Num, w, w.done, done, Ev.el) /\ ~MustNotFind(Num, w, anns)
Result ==
  /\ IsEvent("wr")
  /\ LET w == waits[Ev.id] IN
     CASE Ev.res = "success"  -> Success(w)
       [] Ev.res = "notfound" -> NotFound(w)
       [] Ev.res = "timeout"  -> Timeout(w)
       [] Ev.res = "none"     -> (Success(w) \/ NotFound(w) \/ Timeout(w)) = TRUE  \* a wait that does not say how it ended
       [] OTHER -> FALSE
  /\ UNCHANGED <<anns, annf, done, waits>>
Accept == /\ ~acc /\ l = Len(T.ev) + 1 /\ PrintT(<<"ACCEPT", ti>>)
          /\ acc' = TRUE /\ UNCHANGED <<ti, l, anns, annf, done, waits>>
Consume == Ann \/ AnnF \/ DoneE \/ Start \/ Result
Reject == /\ ~acc /\ l <= Len(T.ev) /\ ~ENABLED Consume /\ PrintT(<<"REJECT", ti, l, T.id>>)
          /\ acc' = TRUE /\ UNCHANGED <<ti, l, anns, annf, done, waits>>
Next == Consume \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
