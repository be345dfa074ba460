----------------------------- MODULE Producer -----------------------------
(* Abstract specification of a producer: which messages the calls AddBlock  *)
(* and SendBatch publish, and which calls are rejected.                     *)
(*                                                                          *)
(* A block definition has                                                   *)
(*   items: sequence of [k, v, rec, del, cls, topic]; cls is "inline",      *)
(*          "cnt" (a schema expression matches; rec is the matched prefix)  *)
(*          or "sub" (carried by the subbatch whose path is rec)            *)
(*   subs:  sequence of [path, id, topic, zero]                             *)
(* State: pend, the set of <<batch id, block>> announced and not sent yet.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Items(blk, c) == {i \in DOMAIN blk.items : blk.items[i].cls = c}
Inline(blk) == {blk.items[i].k : i \in Items(blk, "inline")}
Counted(blk) == {blk.items[i].rec : i \in Items(blk, "cnt")}
Paths(blk) == {blk.subs[i].path : i \in DOMAIN blk.subs}

Invalid(blk) == \E i \in DOMAIN blk.subs : blk.subs[i].zero
Conflict(blk) == Paths(blk) \cap (Inline(blk) \cup Counted(blk)) # {} \/ Inline(blk) \cap Counted(blk) # {}
Errors(blk) == (IF Invalid(blk) THEN {"invalid"} ELSE {}) \cup (IF Conflict(blk) THEN {"conflict"} ELSE {})
Accepted(blk) == Errors(blk) = {}

\* what the header says: one record per prefix
HeaderRecs(blk) ==
  {<<blk.items[i].k, IF blk.items[i].del THEN "del" ELSE "val", blk.items[i].v>> : i \in Items(blk, "inline")}
  \cup {<<r, "count", ToString(Cardinality({i \in Items(blk, "cnt") : blk.items[i].rec = r}))>> : r \in Counted(blk)}
  \cup {<<blk.subs[i].path, "sub", blk.subs[i].id>> : i \in DOMAIN blk.subs}

\* the separate messages: <<topic, type, key, value>>
CountedMsgs(blk) ==
  {<<blk.items[i].topic, IF blk.items[i].del THEN "D" ELSE "U", blk.items[i].k, blk.items[i].v>> : i \in Items(blk, "cnt")}

\* the items of a subbatch
SubItems(blk, path) ==
  {<<IF blk.items[i].del THEN "D" ELSE "U", blk.items[i].k, blk.items[i].v>> :
     i \in {j \in Items(blk, "sub") : blk.items[j].rec = path}}

Ids(blk) == {blk.subs[i].id : i \in DOMAIN blk.subs}
SubOf(blk, id) == blk.subs[CHOOSE i \in DOMAIN blk.subs : blk.subs[i].id = id]

\* effect of the calls on the announced batches
AfterAdd(pend, b, blk) == IF Accepted(blk) THEN {p \in pend : p[1] \notin Ids(blk)} \cup {<<id, b>> : id \in Ids(blk)} ELSE pend
Pending(pend, id) == \E p \in pend : p[1] = id
BlockOf(pend, id) == (CHOOSE p \in pend : p[1] = id)[2]
AfterSend(pend, id) == {p \in pend : p[1] # id}
=============================================================================
