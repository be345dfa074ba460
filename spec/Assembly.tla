----------------------------- MODULE Assembly -----------------------------
(* Abstract specification of block reassembly: what a consumer of the       *)
(* message layer may emit, given the set of messages it has been handed.    *)
(*                                                                          *)
(* A block is a record with a sequence `msgs` of message identities; each   *)
(* has a type t ("H" header, "U"/"D" counted update/delete, "SH"/"SM"       *)
(* subbatch header/message) and the record `rec` (prefix) it belongs to.    *)
(*                                                                          *)
(* State (one record, so that the design model and the trace spec share it) *)
(*   got[b]   messages of b handed over since b was last "open"             *)
(*   phase[b] "open": never completed;  "done": completed and remembered;   *)
(*            "lax": completed, but too long ago to be remembered           *)
(*   recent   completed blocks, oldest first, at most `window` of them      *)
(*   early[b] messages of b from before b came whole, by another transport; *)
(*            they may still be around once b is forgotten                  *)
EXTENDS Naturals, Sequences, FiniteSets

\* what a consumer tracking `tracked` needs before it may emit the block
Needed(blk, tracked) ==
  {i \in DOMAIN blk.msgs : blk.msgs[i].t = "H" \/ blk.msgs[i].rec \in tracked}

InitState(n) == [got    |-> [b \in 1..n |-> {}],
                 phase  |-> [b \in 1..n |-> "open"],
                 recent |-> <<>>,
                 early  |-> [b \in 1..n |-> {}]]

Ignored(s, b) == s.phase[b] = "done"

\* hand message m of block b over
Got(s, b, m) == IF Ignored(s, b) THEN s.got ELSE [s.got EXCEPT ![b] = @ \cup {m}]

Complete(got, b, needed) == needed[b] \subseteq got[b]

\* blocks that must come out when (b, m) is handed over
MustEmit(s, b, m, needed) ==
  IF s.phase[b] = "open" /\ Complete(Got(s, b, m), b, needed) THEN {b} ELSE {}

\* blocks that may come out
MayEmit(s, b, m, needed) ==
  IF ~Ignored(s, b) /\ Complete(Got(s, b, m), b, needed) THEN {b} ELSE {}

\* the state after (b, m) was handed over and the sequence `out` came out
RECURSIVE Remember(_, _, _)
Remember(s, out, window) ==
  IF out = <<>> THEN s
  ELSE LET x  == Head(out)
           r0 == SelectSeq(s.recent, LAMBDA y : y # x)
           r1 == Append(r0, x)
           old == IF Len(r1) > window THEN {r1[1]} ELSE {}
           r2 == IF Len(r1) > window THEN Tail(r1) ELSE r1
       IN Remember([got    |-> [b \in DOMAIN s.got |-> IF b \in old THEN s.early[b] ELSE s.got[b]],
                    phase  |-> [b \in DOMAIN s.phase |->
                                  IF b \in old THEN "lax"
                                  ELSE IF b = x THEN "done" ELSE s.phase[b]],
                    recent |-> r2,
                    early  |-> s.early],
                   Tail(out), window)

AfterDeliver(s, b, m, out, window) ==
  Remember([s EXCEPT !.got = Got(s, b, m),
                     !.early = [x \in DOMAIN s.early |-> IF x \in {out[i] : i \in DOMAIN out} THEN {} ELSE s.early[x]]],
           out, window)

\* the state after b was handed over whole, as a websocket does, and `out` came out
AfterWhole(s, b, out, window) ==
  Remember([s EXCEPT !.early[b] = IF Ignored(s, b) THEN @ ELSE @ \cup s.got[b]], out, window)

\* a large reorg makes the consumer forget what it completed
AfterReorg(s) ==
  [got    |-> [b \in DOMAIN s.got |-> IF s.phase[b] = "done" THEN s.early[b] ELSE s.got[b]],
   early  |-> s.early,
   phase  |-> [b \in DOMAIN s.phase |-> IF s.phase[b] = "done" THEN "lax" ELSE s.phase[b]],
   recent |-> <<>>]
=============================================================================
