--------------------------- MODULE AssemblyImpl ---------------------------
(* The reassembly algorithm of the implementation (per-prefix counters,     *)
(* outstanding subbatches, messages held back until a header arrives, a     *)
(* bounded memory of completed blocks), checked by TLC to emit exactly what *)
(* the abstract specification Assembly allows and requires, for every order *)
(* and multiplicity of messages within the bounds.  Its behaviours are also *)
(* the schedules that are replayed into the real code.                      *)
EXTENDS Assembly, TLC

CONSTANTS Blocks,     \* sequence of [msgs: Seq([t, rec])]
          Tracked,    \* records of interest
          Window,     \* how many completed blocks are remembered
          MaxLen,     \* deliveries in one behaviour
          MaxDup,     \* how many of them may be repetitions
          Names,      \* names of the messages of block 1 (schedule generation) or <<>>
          Reorgs,     \* whether large-reorg notices occur
          Wholes      \* whether blocks come whole, too

VARIABLES impl, s, out, ok, hist, nd, len
vars == <<impl, s, out, ok, hist, nd, len>>

NB == Len(Blocks)
Msg(b, m) == Blocks[b].msgs[m]
NeededOf == [b \in 1..NB |-> Needed(Blocks[b], Tracked)]
Of(b, ts) == {m \in DOMAIN Blocks[b].msgs : Msg(b, m).t \in ts}
RecsOf(b, ts) == {Msg(b, m).rec : m \in Of(b, ts)}

None == [hdr |-> FALSE]
Fresh(b) == [hdr  |-> TRUE,
             cnt  |-> [r \in RecsOf(b, {"U", "D"}) \cap Tracked |-> Cardinality({m \in Of(b, {"U", "D"}) : Msg(b, m).rec = r})],
             subs |-> RecsOf(b, {"SH"}) \cap Tracked,
             open |-> [r \in {} |-> {}],     \* subbatch -> outstanding parts
             have |-> {},
             held |-> {}]

Ready(p) == p.subs = {} /\ (\A r \in DOMAIN p.cnt : p.cnt[r] = 0) /\ (\A r \in DOMAIN p.open : p.open[r] = {})

RECURSIVE ApplyHeld(_, _, _)
Apply(p, b, m) ==
  LET x == Msg(b, m) IN
  CASE x.t \in {"U", "D"} ->
         IF m \in p.have THEN p
         ELSE IF x.rec \in DOMAIN p.cnt /\ p.cnt[x.rec] > 0
         THEN [p EXCEPT !.cnt[x.rec] = @ - 1, !.have = @ \cup {m}]
         ELSE [p EXCEPT !.held = @ \cup {m}]
    [] x.t = "SM" ->
         IF x.rec \notin DOMAIN p.open THEN [p EXCEPT !.held = @ \cup {m}]
         ELSE [p EXCEPT !.open[x.rec] = @ \ {m}, !.have = @ \cup {m}]
    [] x.t = "SH" ->
         IF x.rec \notin p.subs THEN p
         ELSE LET q == [p EXCEPT !.subs = @ \ {x.rec},
                                 !.open = (x.rec :> {n \in Of(b, {"SM"}) : Msg(b, n).rec = x.rec}) @@ @]
              IN ApplyHeld([q EXCEPT !.held = {}], b, q.held)
ApplyHeld(p, b, ms) ==
  IF ms = {} THEN p
  ELSE LET m == CHOOSE n \in ms : TRUE IN ApplyHeld(Apply(p, b, m), b, ms \ {m})

\* one message of a block whose header is known; emits when that completes it
Step1(i, b, m) ==
  LET p == Apply(i.pend[b], b, m) IN
  IF Ready(p)
  THEN [i EXCEPT !.pend[b] = None, !.out = Append(@, b),
                 !.done = LET d == Append(@, b) IN IF Len(d) > Window THEN Tail(d) ELSE d]
  ELSE [i EXCEPT !.pend[b] = p]
RECURSIVE Flush(_, _, _)
Flush(i, b, ms) ==
  IF ms = {} THEN i
  ELSE LET m == CHOOSE n \in ms : TRUE
       IN IF b \in {i.done[k] : k \in DOMAIN i.done} THEN i       \* already complete: the rest is ignored
          ELSE Flush(Step1(i, b, m), b, ms \ {m})
Settle(i, b) ==
  IF i.pend[b].hdr /\ Ready(i.pend[b])
  THEN [i EXCEPT !.pend[b] = None, !.out = Append(@, b),
                 !.done = LET d == Append(@, b) IN IF Len(d) > Window THEN Tail(d) ELSE d]
  ELSE i

Handle(i0, b, m) ==
  LET i == [i0 EXCEPT !.out = <<>>] IN
  IF b \in {i.done[k] : k \in DOMAIN i.done} THEN i
  ELSE IF Msg(b, m).t = "H"
       THEN IF i.pend[b].hdr THEN i
            ELSE Settle(Flush([i EXCEPT !.pend[b] = Fresh(b), !.queued[b] = {}], b, i.queued[b]), b)
       ELSE IF ~i.pend[b].hdr THEN [i EXCEPT !.queued[b] = @ \cup {m}]
            ELSE Step1(i, b, m)

Init == /\ impl = [pend |-> [b \in 1..NB |-> None], queued |-> [b \in 1..NB |-> {}], done |-> <<>>, out |-> <<>>]
        /\ s = InitState(NB)
        /\ out = <<>> /\ ok = TRUE /\ hist = <<>> /\ nd = 0 /\ len = 0

Seen(b, m) == <<b, m>> \in {hist[k] : k \in DOMAIN hist}

Deliver(b, m) ==
  /\ len < MaxLen
  /\ nd' = nd + (IF Seen(b, m) THEN 1 ELSE 0)
  /\ nd' <= MaxDup
  /\ len' = len + 1
  /\ hist' = Append(hist, <<b, m>>)
  /\ impl' = Handle(impl, b, m)
  /\ out' = impl'.out
  /\ LET outs == {out'[k] : k \in DOMAIN out'} IN
     ok' = /\ MustEmit(s, b, m, NeededOf) \subseteq outs
           /\ outs \subseteq MayEmit(s, b, m, NeededOf)
           /\ Len(out') = Cardinality(outs)
  /\ s' = AfterDeliver(s, b, m, out', Window)

BigReorg ==
  /\ Reorgs /\ len < MaxLen /\ len' = len + 1
  /\ impl' = [impl EXCEPT !.done = <<>>, !.out = <<>>]
  /\ s' = AfterReorg(s)
  /\ out' = <<>> /\ UNCHANGED <<ok, hist, nd>>

\* a block from another transport: what is pending of it goes, what came before its header stays
Whole(b) ==
  /\ Wholes /\ len < MaxLen /\ len' = len + 1
  /\ LET have == b \in {impl.done[k] : k \in DOMAIN impl.done} IN
     /\ impl' = IF have THEN [impl EXCEPT !.out = <<>>]
                ELSE [impl EXCEPT !.pend[b] = None, !.out = <<b>>,
                                  !.done = LET d == Append(@, b) IN IF Len(d) > Window THEN Tail(d) ELSE d]
     /\ out' = impl'.out
     /\ ok' = (IF Ignored(s, b) THEN out' = <<>> ELSE out' = <<b>>)
     /\ s' = AfterWhole(s, b, out', Window)
  /\ UNCHANGED <<hist, nd>>

Next == (\E b \in 1..NB : Whole(b)) \/ (\E b \in 1..NB : \E m \in DOMAIN Blocks[b].msgs : Deliver(b, m)) \/ BigReorg
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* the algorithm never emits what it may not, and always emits what it must
Refines == ok
\* what is remembered as completed agrees with the abstract state
Remembers == /\ {impl.done[k] : k \in DOMAIN impl.done} = {b \in 1..NB : s.phase[b] = "done"}
             /\ Len(impl.done) <= Window
\* a block that is neither complete nor remembered has exactly the messages that it got
Consistent == \A b \in 1..NB : s.phase[b] = "open" /\ impl.pend[b].hdr =>
                /\ impl.pend[b].have \subseteq s.got[b]
                /\ ~Ready(impl.pend[b])

\* exploration without the history: two histories that differ only in order coincide
View == <<impl, s, ok, nd, len, {hist[k] : k \in DOMAIN hist}>>

\* schedule generation
RECURSIVE Join(_, _)
Join(h, i) == IF i > Len(h) THEN "" ELSE (IF i > 1 THEN "," ELSE "") \o "\"" \o Names[h[i][2]] \o "\"" \o Join(h, i + 1)
Gen == (Names # <<>> /\ len = MaxLen) => PrintT("SCHED {\"seq\":[" \o Join(hist, 1) \o "]}")
=============================================================================
