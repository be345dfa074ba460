---------------------------- MODULE KafkaChainMC ----------------------------
(* Crashes and restarts over a partitioned log. Blocks form a tree; of each *)
(* block there is a message on either partition, in the order of production *)
(* and possibly once more from a redundant producer. A consumer reads the   *)
(* partitions in any interleaving; a block is complete with both messages;  *)
(* the application stores its head and the token of it, crashes at any      *)
(* point and starts again from the token less a rollback.                   *)
(*                                                                          *)
(* The token is per partition the smallest offset of the block's messages   *)
(* or, if it is not known to have one there, the largest offset read when   *)
(* the header came (delivery/consumer.go). Here message 1 (the header) is on *)
(* partition 1 and message 2 on partition 2; a block of kind "one" has only  *)
(* the header, so that its token on partition 2 is such a default.          *)
EXTENDS Ordering, TLC
CONSTANTS N, MaxCrash, Weights, Rollback

VARIABLES bl, one, log, pos, got, comp, res, br, bd, head, token, crashes
vars == <<bl, one, log, pos, got, comp, res, br, bd, head, token, crashes>>

RECURSIVE Path(_, _)
Path(t, b) == IF b = 0 THEN <<>> ELSE <<b>> \o Path(t, t[b].par)
Anc(t, b) == SetOf(Path(t, b))
Pars == {f \in [1..N -> 0..(N - 1)] : \A i \in 1..N : IF i = 1 THEN f[i] = 0 ELSE f[i] > 0 /\ f[i] < i}
RECURSIVE W(_, _, _)
W(par, dw, i) == IF i = 0 THEN 0 ELSE W(par, dw, par[i]) + dw[i]
Trees == {[i \in 1..N |-> [par |-> par[i], num |-> 0, w |-> W(par, dw, i)]] : par \in Pars, dw \in [1..N -> Weights]}
\* without a tie for the heaviest block
Sharp == {t \in Trees : \E b \in 1..N : \A c \in 1..N \ {b} : t[b].w > t[c].w}

Base0(o, p) == SelectSeq([i \in 1..N |-> i], LAMBDA i : p = 1 \/ i \notin o)
Insert(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
\* each partition as produced, or with one message again at a later place
Logs(o, p) == {Base0(o, p)} \cup {Insert(Base0(o, p), i, Base0(o, p)[j]) : i \in DOMAIN Base0(o, p), j \in 1..1}
                          \cup {Insert(Base0(o, p), Len(Base0(o, p)), x) : x \in SetOf(Base0(o, p))}

NoOff == [p \in 1..2 |-> 0]
Fresh(lg, tk, R) ==
  /\ pos' = [p \in 1..2 |-> IF tk[p] <= R THEN 1 ELSE tk[p] - R]
  /\ got' = {} /\ comp' = {} /\ res' = NoOff
  /\ br' = [b \in 1..N |-> NoOff] /\ bd' = [b \in 1..N |-> NoOff]

Init ==
  /\ bl \in Sharp /\ one \in {{}, {2}, {3}} /\ log \in [1..2 -> UNION {Logs(one, p) : p \in 1..2}]
  /\ \A p \in 1..2 : log[p] \in Logs(one, p)
  /\ pos = [p \in 1..2 |-> 1] /\ got = {} /\ comp = {} /\ res = NoOff
  /\ br = [b \in 1..N |-> NoOff] /\ bd = [b \in 1..N |-> NoOff]
  /\ head = 1 /\ token = [p \in 1..2 |-> 1] /\ crashes = 0

Complete(g, b) == <<b, 1>> \in g /\ (b \in one \/ <<b, 2>> \in g)
\* the update to c can be formed: the blocks to remove and to add are at hand
Reachable(h, c, cp) ==
  LET common == Anc(bl, h) \cap Anc(bl, c) IN Anc(bl, c) \ common \subseteq cp /\ Anc(bl, h) \ common \subseteq cp
Better(h, cp) == {c \in cp : bl[c].w > bl[h].w /\ Reachable(h, c, cp)}
Tok(b) == [p \in 1..2 |-> IF br'[b][p] > 0 THEN br'[b][p] ELSE bd'[b][p]]
\* the application may process only the first blocks of an update before it crashes
Emit(cp) ==
  IF Better(head, cp) = {} THEN UNCHANGED <<head, token>>
  ELSE LET c == CHOOSE x \in Better(head, cp) : \A y \in Better(head, cp) : bl[x].w >= bl[y].w
       IN head' = c /\ token' = Tok(c)

Min(a, b) == IF a = 0 \/ b < a THEN b ELSE a
Read(p) ==
  /\ pos[p] <= Len(log[p])
  /\ LET b == log[p][pos[p]]
         m == <<b, p>>
         g == got \cup {m}
         first == p = 1 /\ m \notin got
     IN /\ pos' = [pos EXCEPT ![p] = @ + 1]
        /\ res' = [res EXCEPT ![p] = IF @ < pos[p] THEN pos[p] ELSE @]
        /\ got' = g
        \* repetitions of messages of a completed block are ignored, others count
        /\ br' = IF b \in comp THEN br ELSE [br EXCEPT ![b][p] = Min(@, pos[p])]
        /\ bd' = IF first THEN [bd EXCEPT ![b] = res'] ELSE bd
        /\ comp' = comp \cup {x \in {b} : Complete(g, x)}
        /\ IF Complete(g, b) /\ b \notin comp THEN Emit(comp') ELSE UNCHANGED <<head, token>>
  /\ UNCHANGED <<bl, one, log, crashes>>

\* how far back the messages are that are needed to follow every branch from the head
Behind(b) == {p \in 1..2 : p = 1 \/ b \notin one}
LastAt(b, p) == CHOOSE i \in DOMAIN log[p] : log[p][i] = b /\ \A j \in DOMAIN log[p] : log[p][j] = b => j <= i
Needs(h) == LET others == {b \in 1..N : b \notin Anc(bl, h)}
                low == {b \in Anc(bl, h) : \E c \in others : bl[c].w > bl[h].w /\ b \notin Anc(bl, c)}
            IN others \cup low
MaxOf(s) == CHOOSE x \in s : \A y \in s : x >= y
Back(b, p, tk) == IF p \in Behind(b) /\ tk[p] > LastAt(b, p) THEN tk[p] - LastAt(b, p) ELSE 0
Needed(h, tk) == MaxOf({0} \cup {Back(b, p, tk) : b \in Needs(h), p \in 1..2})

Crash ==
  /\ crashes < MaxCrash /\ crashes' = crashes + 1
  /\ Fresh(log, token, IF Rollback THEN Needed(head, token) ELSE 0)
  /\ UNCHANGED <<bl, one, log, head, token>>
\* the application crashes after having applied only the first added blocks of an update
CrashMid(p) ==
  /\ crashes < MaxCrash /\ crashes' = crashes + 1
  /\ pos[p] <= Len(log[p])
  /\ LET b == log[p][pos[p]]
         g == got \cup {<<b, p>>}
         cp == comp \cup {x \in {b} : Complete(g, x)}
         r2 == [res EXCEPT ![p] = IF @ < pos[p] THEN pos[p] ELSE @]
         b2 == [br EXCEPT ![b][p] = Min(@, pos[p])]
         d2 == IF p = 1 /\ <<b, p>> \notin got THEN [bd EXCEPT ![b] = r2] ELSE bd
     IN /\ Complete(g, b) /\ b \notin comp /\ Better(head, cp) # {}
        /\ LET c == CHOOSE x \in Better(head, cp) : \A y \in Better(head, cp) : bl[x].w >= bl[y].w
           IN \E x \in Anc(bl, c) \ (Anc(bl, head) \cup {c}) :
                LET t == [q \in 1..2 |-> IF b2[x][q] > 0 THEN b2[x][q] ELSE d2[x][q]]
                IN head' = x /\ token' = t /\ Fresh(log, t, IF Rollback THEN Needed(x, t) ELSE 0)
  /\ UNCHANGED <<bl, one, log>>
Next == Crash \/ \E p \in 1..2 : Read(p) \/ CrashMid(p)
Spec == Init /\ [][Next]_vars

\* the log holds every message of the head at or after the token (C08)
TokenBringsBack == \A p \in Behind(head) : \E i \in DOMAIN log[p] : i >= token[p] /\ log[p][i] = head
\* with everything read, the application is on the heaviest chain (C16)
Caught == (\A p \in 1..2 : pos[p] > Len(log[p])) => \A b \in 1..N : bl[head].w >= bl[b].w
=============================================================================
