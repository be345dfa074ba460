---------------------------- MODULE WaiterImpl ----------------------------
(* How the implementation answers waits: a channel per announced block,     *)
(* handed to the waiter under the hash of the block and tied to its number, *)
(* closed when the application marks the block as done.  Blocks come as     *)
(* header and payload messages or whole, from another transport.            *)
(* Fixed = FALSE is the behaviour before the repairs of C15: a block that   *)
(* comes whole is announced with a new channel even if it is pending or     *)
(* was completed before.                                                    *)
EXTENDS Waiter, Integers, TLC, FiniteSetsExt

CONSTANTS Blocks,     \* sequence of [num, w, par]; par = 0: the starting block
          Fixed, MaxOps, MaxWaits, MaxApp, Printing

VARIABLES pend,    \* block -> channel of the pending header (0: none)
          early,   \* payload arrived before the header
          comp,    \* completed blocks
          reg,     \* block -> channel registered with the waiter (0: none)
          ties,    \* <<number, channel>>
          omp,     \* block -> channel of the batch the ordering works on
          closed, nextc, head,
          out,     \* emitted and not yet marked as done
          done, waits, ops
vars == <<pend, early, comp, reg, ties, omp, closed, nextc, head, out, done, waits, ops>>
B == DOMAIN Blocks
Num == [b \in B |-> Blocks[b].num]
None == [b \in B |-> 0]

Init == /\ pend = None /\ early = {} /\ comp = {} /\ reg = None /\ ties = {} /\ omp = None /\ closed = {}
        /\ nextc = 1 /\ head = 0 /\ out = {} /\ done = {} /\ waits = {} /\ ops = <<>>

RECURSIVE Conn(_, _)
Conn(d, from) == LET n == from \cup {b \in d : Blocks[b].par \in from} IN IF n = from THEN from ELSE Conn(d, n)
Weight(b) == IF b = 0 THEN 0 ELSE Blocks[b].w
RECURSIVE Path(_)
Path(b) == IF b = 0 THEN {} ELSE {b} \cup Path(Blocks[b].par)
Emission(c) ==   \* <<head, blocks added>>
  LET con == Conn(c, {0})
      better == {b \in con : Weight(b) > Weight(head)}
  IN IF better = {} THEN <<head, {}>>
     ELSE LET m == Max({Weight(b) : b \in better})
              h == CHOOSE b \in better : Weight(b) = m
          IN <<h, (Path(h) \ Path(head)) \cup (Path(head) \ Path(h))>>

Announce(b, c) == /\ reg' = [reg EXCEPT ![b] = c] /\ ties' = ties \cup {<<Num[b], c>>}
Complete(b, c) ==
  LET e == Emission(comp \cup {b}) IN
  /\ comp' = comp \cup {b} /\ omp' = [omp EXCEPT ![b] = c] /\ pend' = [pend EXCEPT ![b] = 0]
  /\ IF b \in comp THEN UNCHANGED <<head, out>> ELSE head' = e[1] /\ out' = out \cup e[2]
Op(x) == Len(ops) < MaxOps /\ ops' = Append(ops, x)

Header(b) ==
  /\ Op(<<"H", ToString(b)>>)
  /\ IF b \in comp \/ pend[b] # 0 THEN UNCHANGED <<pend, early, comp, reg, ties, omp, nextc, head, out>>
     ELSE /\ Announce(b, nextc) /\ nextc' = nextc + 1 /\ early' = early \ {b}
          /\ IF b \in early THEN Complete(b, nextc) ELSE pend' = [pend EXCEPT ![b] = nextc] /\ UNCHANGED <<comp, omp, head, out>>
  /\ UNCHANGED <<closed, done, waits>>
Payload(b) ==
  /\ Op(<<"P", ToString(b)>>)
  /\ IF b \in comp THEN UNCHANGED <<pend, early, comp, reg, ties, omp, nextc, head, out>>
     ELSE IF pend[b] # 0 THEN Complete(b, pend[b]) /\ UNCHANGED <<early, reg, ties, nextc>>
     ELSE early' = early \cup {b} /\ UNCHANGED <<pend, comp, reg, ties, omp, nextc, head, out>>
  /\ UNCHANGED <<closed, done, waits>>
Whole(b) ==
  /\ Op(<<"B", ToString(b)>>)
  /\ IF Fixed /\ b \in comp THEN UNCHANGED <<pend, early, comp, reg, ties, omp, nextc, head, out>>
     ELSE LET c == IF Fixed /\ pend[b] # 0 THEN pend[b] ELSE nextc IN
          /\ Announce(b, c) /\ Complete(b, c) /\ nextc' = nextc + 1 /\ UNCHANGED early
  /\ UNCHANGED <<closed, done, waits>>
App == /\ Op(<<"A", "0">>)
       /\ Cardinality({i \in DOMAIN ops : ops[i][1] = "A"}) < MaxApp
       /\ closed' = closed \cup {omp[b] : b \in out} /\ done' = done \cup out /\ out' = {}
       /\ UNCHANGED <<pend, early, comp, reg, ties, omp, nextc, head, waits>>
WaitHash(b) == /\ Op(<<"Wh", ToString(b)>>) /\ Cardinality(waits) < MaxWaits
               /\ waits' = IF reg[b] = 0 THEN waits ELSE waits \cup {[k |-> "h", t |-> b, c |-> reg[b]]}
               /\ UNCHANGED <<pend, early, comp, reg, ties, omp, closed, nextc, head, out, done>>
WaitNum(n) == /\ Op(<<"Wn", ToString(n)>>) /\ Cardinality(waits) < MaxWaits
              /\ waits' = IF \A x \in ties : x[1] # n THEN waits ELSE waits \cup {[k |-> "n", t |-> n, c |-> 0]}
              /\ UNCHANGED <<pend, early, comp, reg, ties, omp, closed, nextc, head, out, done>>
Next == \/ \E b \in B : Header(b) \/ Payload(b) \/ Whole(b) \/ WaitHash(b)
        \/ App
        \/ \E n \in {Num[b] : b \in B} : WaitNum(n)
Spec == Init /\ [][Next]_vars

Resolved(w) == IF w.k = "h" THEN w.c \in closed ELSE \E x \in ties : x[1] = w.t /\ x[2] \in closed
\* a wait is resolved exactly when the application is done with what it waits for
Exact == \A w \in waits : Resolved(w) <=> Hit(Num, w, done)
\* a wait that begins later is, too
Later == /\ \A b \in B : reg[b] # 0 => (reg[b] \in closed <=> b \in done)
         /\ \A n \in {Num[b] : b \in B} : (\E x \in ties : x[1] = n /\ x[2] \in closed) <=> (\E b \in done : Num[b] = n)
         /\ \A b \in done : reg[b] # 0

RECURSIVE Str(_)
Str(c) == IF c = <<>> THEN "" ELSE
          "[\"" \o c[1][1] \o "\",\"" \o c[1][2] \o "\"]" \o (IF Len(c) > 1 THEN "," ELSE "") \o Str(Tail(c))
Waits == Cardinality({i \in DOMAIN ops : ops[i][1] \in {"Wh", "Wn"}})
Gen == Printing /\ Len(ops) = MaxOps /\ Waits > 0 /\ ops[1][1] \notin {"A", "Wn"} => PrintT("SCHED {\"blocks\":" \o ToString(Len(Blocks)) \o ",\"ops\":[" \o Str(ops) \o "]}")
View == <<pend, early, comp, reg, ties, omp, closed, nextc, head, out, done, waits>>
=============================================================================
