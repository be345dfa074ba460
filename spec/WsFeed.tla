------------------------------- MODULE WsFeed -------------------------------
(* What a subscriber of a websocket feed may be sent.                        *)
(*   cfg.blocks : sequence of [par, num, subs]; par 0: outside               *)
(*   cfg.ops    : the calls of the producer, [k, b, s] with k one of         *)
(*                "add" (block b), "sub" (subbatch s of b), "reorg" (notice) *)
(*   cfg.from   : number at which the history starts                         *)
(*   cfg.tip0   : head of the chain when the subscription was asked for      *)
(*   cfg.tip    : head of the chain in the end                               *)
EXTENDS Integers, Sequences, FiniteSets

FeedInit == [rdy  |-> FALSE,  \* ready was sent
             got  |-> {},     \* blocks that came whole as history
             parts |-> {},    \* <<b, s>> that came live; s = 0: the block itself
             next |-> 0]      \* number of the next call; 0: any

RECURSIVE PathOf(_, _)
PathOf(bl, b) == IF b = 0 THEN {} ELSE {b} \cup PathOf(bl, bl[b].par)

Wanted(cfg, tip) == {b \in PathOf(cfg.blocks, tip) : cfg.blocks[b].num >= cfg.from}

\* History has no holes: a block comes after its parent, except the first.
HistoryOk(cfg, st, b) ==
  /\ ~st.rdy
  /\ \/ cfg.blocks[b].num <= cfg.from
     \/ cfg.blocks[b].par \in st.got
History(st, b) == [st EXCEPT !.got = @ \cup {b}]

\* Blocks of branches that were abandoned meanwhile need not come. The chain
\* never comes back to a branch that it left.
ReadyOk(cfg, st) == ~st.rdy /\ (Wanted(cfg, cfg.tip0) \cap PathOf(cfg.blocks, cfg.tip)) \subseteq st.got

IndexOf(cfg, m) == {n \in DOMAIN cfg.ops : cfg.ops[n].k = m.k /\ cfg.ops[n].b = m.b /\ cfg.ops[n].s = m.s}
LiveOk(cfg, st, m) ==
  /\ st.rdy
  /\ IF st.next = 0 THEN IndexOf(cfg, m) # {} ELSE st.next \in IndexOf(cfg, m)
Live(cfg, st, m) ==
  [st EXCEPT !.next = (CHOOSE n \in IndexOf(cfg, m) : TRUE) + 1,
             !.parts = IF m.k = "reorg" THEN @ ELSE @ \cup {<<m.b, m.s>>}]

Complete(cfg, st, b) == b \in st.got \/ \A s \in 0..cfg.blocks[b].subs : <<b, s>> \in st.parts
EndOk(cfg, st) ==
  /\ st.rdy
  /\ st.next \in {0, Len(cfg.ops) + 1}
  /\ \A b \in Wanted(cfg, cfg.tip) : Complete(cfg, st, b)
=============================================================================
