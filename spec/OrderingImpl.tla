--------------------------- MODULE OrderingImpl ---------------------------
(* The chain-following algorithm of the implementation: pending blocks,     *)
(* blocks queued under a parent, a bounded memory of finished blocks whose  *)
(* eviction discards history, and the evaluation of reorganisations.  TLC   *)
(* checks it against the abstract specification Ordering for every tree,    *)
(* delivery order and tie-break within the bounds; its behaviours are also  *)
(* the schedules replayed into the real code.                               *)
EXTENDS Ordering, Integers, TLC, FiniteSetsExt

CONSTANTS Scenarios,   \* set of [bl, start, T, wl, fixed, free, kind]
          MaxDup, Printing

VARIABLES sc, impl, del,
          since,   \* delivered since the last notice
          head, todo, nd, ok, hist
vars == <<sc, impl, del, since, head, todo, nd, ok, hist>>

BL  == sc.bl
Par(b) == BL[b].par
W(b) == BL[b].w
Num(b) == BL[b].num
Cap == 2 * sc.T + 2
Excl == Excluded(BL, sc.wl)
ExclRoots == ExcludedRoots(BL, sc.wl)

Kids(st, h) == {p[2] : p \in {x \in st.q : x[1] = h}}
Fin(st, x) == \E i \in DOMAIN st.fin : st.fin[i] = x

RECURSIVE Evict(_, _), EvictAll(_, _)
Evict(st, h) ==
  IF h \notin st.pend THEN st
  ELSE LET s1 == Evict([st EXCEPT !.pend = @ \ {h}], Par(h))
           s2 == EvictAll(s1, {c \in Kids(s1, h) : ~Fin(s1, c)})
       IN [s2 EXCEPT !.q = {p \in @ : p[1] # h}]
EvictAll(st, hs) == IF hs = {} THEN st
                    ELSE LET h == CHOOSE x \in hs : TRUE IN EvictAll(Evict(st, h), hs \ {h})

FinAdd(st, x) ==
  IF Fin(st, x) THEN [st EXCEPT !.fin = Append(SelectSeq(@, LAMBDA y : y # x), x)]
  ELSE IF Len(st.fin) < Cap THEN [st EXCEPT !.fin = Append(@, x)]
  ELSE Evict([st EXCEPT !.fin = Append(Tail(@), x)], st.fin[1])

Queue(st, b) == [st EXCEPT !.q = @ \cup {<<Par(b), b>>}]

RECURSIVE Difficulty(_, _)
Difficulty(st, h) ==
  IF Kids(st, h) = {} THEN IF h \in st.pend THEN W(h) ELSE 0
  ELSE Max({Difficulty(st, c) : c \in Kids(st, h)})
HasChild(st, h) == Kids(st, h) # {}
\* ties are broken arbitrarily; hi says which way in this step
Child(st, h, hi) ==
  LET best == {c \in Kids(st, h) : Difficulty(st, c) = Max({Difficulty(st, d) : d \in Kids(st, h)})}
  IN IF hi THEN Max(best) ELSE Min(best)

RECURSIVE FinishTree(_, _), FinishAll(_, _)
FinishTree(st, h) == LET ks == Kids(st, h) IN FinishAll(FinAdd(st, h), ks)
FinishAll(st, hs) == IF hs = {} THEN st
                     ELSE LET h == CHOOSE x \in hs : TRUE IN FinishAll(FinishTree(st, h), hs \ {h})
FinishSiblings(st, b) == FinishAll(st, Kids(st, Par(b)) \ {b})

RECURSIVE Extend(_, _, _)
Extend(st, new, hi) ==
  IF ~HasChild(st, st.last) THEN <<st, new>>
  ELSE LET c  == Child(st, st.last, hi)
           s1 == FinishSiblings(st, c)
           s2 == FinAdd([s1 EXCEPT !.last = c, !.lastw = W(c)], c)
       IN Extend(s2, Append(new, c), hi)
Emit(st, new, old, hi) ==
  LET n  == Last(new)
      s1 == FinAdd(FinishSiblings([st EXCEPT !.last = n, !.lastw = W(n)], n), n)
      e  == Extend(s1, new, hi)
  IN [e[1] EXCEPT !.out = Append(@, [add |-> e[2], rem |-> old])]

\* walks back from both heads to the common ancestor
RECURSIVE Walk(_, _, _, _, _), Down(_, _, _)
Down(st, n, o) ==   \* n: sequence of new blocks; go back to the height after o
  IF Num(n[1]) > Num(o) + 1
  THEN IF Par(n[1]) \notin st.pend THEN <<FALSE, n>> ELSE Down(st, <<Par(n[1])>> \o n, o)
  ELSE <<TRUE, n>>
Walk(st, n, o, rev, fuel) ==
  LET d == Down(st, n, o) IN
  IF ~d[1] THEN [ok |-> FALSE, add |-> d[2], rem |-> rev, miss |-> TRUE]
  ELSE IF Par(d[2][1]) = o THEN [ok |-> TRUE, add |-> d[2], rem |-> rev, miss |-> FALSE]
  ELSE IF Par(o) \notin st.pend THEN [ok |-> FALSE, add |-> d[2], rem |-> rev, miss |-> FALSE]
  ELSE Walk(st, d[2], Par(o), <<o>> \o rev, fuel)

RECURSIVE Handle(_, _, _, _)
HandleChild(st, h, hi) ==
  IF ~HasChild(st, h) THEN st
  ELSE LET c == Child(st, h, hi) IN
       IF c \notin st.pend THEN st ELSE Handle(FinishSiblings(st, c), c, TRUE, hi)
Handle(st0, b, again, hi) ==
  IF b \in ExclRoots \/ Par(b) \in st0.black THEN [st0 EXCEPT !.black = @ \cup {b}]
  ELSE
  LET st == [st0 EXCEPT !.pend = @ \cup {b}] IN
  IF Fin(st, b) /\ ~again THEN st
  ELSE IF Par(b) = st.last THEN Emit(st, <<b>>, <<>>, hi)
  ELSE IF st.boot /\ Len(st.fin) < 10 /\ ~Fin(st, Par(b)) THEN Emit(st, <<b>>, <<>>, hi)
  ELSE IF Fin(st, Par(b))
  THEN LET try == st.last \in st.pend /\ W(b) > st.lastw
           r == IF try THEN Walk(st, <<b>>, st.last, <<>>, 0) ELSE [ok |-> FALSE, miss |-> FALSE]
       IN IF r.ok THEN Emit(st, r.add, IF r.rem = <<>> THEN <<>> ELSE r.rem, hi)
          ELSE LET s1 == IF r.miss THEN Queue(st, Last(r.add)) ELSE st
               IN Queue(HandleChild(FinAdd(s1, b), b, hi), b)
  ELSE IF W(b) < st.lastw
  THEN IF st.last \in st.pend /\ Num(st.last) - Num(b) > sc.T THEN [st EXCEPT !.pend = @ \ {b}]
       ELSE Queue(HandleChild(FinAdd(st, b), b, hi), b)
  ELSE Queue(st, b)

----------------------------------------------------------------------------
Fresh(s) == [pend |-> {}, q |-> {}, fin |-> <<s.start>>, last |-> s.start, black |-> {},
             lastw |-> IF s.start = 0 THEN 0 ELSE s.bl[s.start].w, boot |-> s.start = 0, out |-> <<>>]

Init == /\ sc \in Scenarios
        /\ impl = Fresh(sc)
        /\ del = {} /\ since = {} /\ head = sc.start /\ todo = sc.fixed /\ nd = 0 /\ ok = TRUE /\ hist = <<>>

Heads(h, up) == IF up = <<>> THEN h ELSE Last(up[Len(up)].add)
RECURSIVE AllUps(_, _, _)
AllUps(h, up, boot) ==
  IF up = <<>> THEN TRUE
  ELSE /\ \/ Continuous(BL, h, up[1])
          \/ boot /\ up[1].rem = <<>> /\ Contiguous(BL, up[1].add)
       /\ Justified(BL, h, up[1])
       /\ SetOf(up[1].add) \cap Excl = {}
       /\ AllUps(Last(up[1].add), Tail(up), boot)
Anchors == IF sc.kind = "depth" THEN {sc.start} ELSE SetOf(sc.fixed)
Conn(d) == Closure(BL, d \ Excl, Anchors) \ Excl

Deliver(b) ==
  \E hi \in BOOLEAN :
    LET i1 == Handle([impl EXCEPT !.out = <<>>], b, FALSE, hi)
        d1 == del \cup {b}
        up == i1.out
        h1 == Heads(head, up)
    IN /\ impl' = i1 /\ del' = d1 /\ since' = since \cup {b} /\ head' = h1 /\ hist' = Append(hist, b)
       /\ ok' = /\ AllUps(head, up, sc.kind = "bootstrap")
                /\ \A k \in DOMAIN up : SetOf(up[k].add) \subseteq d1
                /\ (b \in since => up = <<>>)
                /\ (sc.kind \in {"ordering", "whitelist", "depth", "fresh"} => Heaviest(BL, h1, Conn(d1)))
                /\ (sc.kind = "notice" /\ todo = <<>> => LET c == Closure(BL, since \cup {b}, {sc.base})
                                                        IN h1 \in Closure(BL, d1, {sc.base}) /\ Heaviest(BL, h1, c) /\ \A i \in DOMAIN up : SetOf(up[i].rem) \cap since = {})
                /\ i1.last = h1

\* a large-reorg notice (a negative number in the fixed part) moves the head
\* and what comes above that block may come again
Notice(b) == /\ impl' = [impl EXCEPT !.last = b, !.boot = FALSE,
                                    !.fin = SelectSeq(@, LAMBDA x : x = b \/ (x \in impl.pend /\ Num(x) <= Num(b)))]
             /\ head' = b /\ hist' = Append(hist, -b) /\ since' = {} /\ UNCHANGED <<del, ok>>
NoticeFixed == todo # <<>> /\ Head(todo) < 0 /\ Notice(-Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<sc, nd>>
DeliverFixed == todo # <<>> /\ Head(todo) > 0 /\ Deliver(Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<sc, nd>>
DeliverNew == todo = <<>> /\ (\E b \in sc.free \ since : (sc.kind = "fresh" => Par(b) \in del) /\ Deliver(b)) /\ UNCHANGED <<sc, todo, nd>>
DeliverDup == todo = <<>> /\ nd < MaxDup /\ (\E b \in (IF sc.kind = "notice" THEN since \cap sc.free ELSE del) : Deliver(b)) /\ nd' = nd + 1 /\ UNCHANGED <<sc, todo>>
Next == DeliverFixed \/ NoticeFixed \/ DeliverNew \/ DeliverDup
Spec == Init /\ [][Next]_vars

Refines == ok
View == <<sc, impl, del, since, head, todo, nd, ok>>

Done == todo = <<>> /\ sc.free \subseteq since
\* schedule generation: tree and delivery order, as JSON
RECURSIVE J(_, _)
J(q, i) == IF i > Len(q) THEN "" ELSE (IF i > 1 THEN "," ELSE "") \o ToString(q[i]) \o J(q, i + 1)
Gen == (Printing /\ Done /\ nd = MaxDup /\ Len(hist) = Len(sc.fixed) + Cardinality(sc.free) + MaxDup) =>
  PrintT("SCHED {\"par\":[" \o J([i \in DOMAIN BL |-> Par(i)], 1) \o "],\"num\":[" \o J([i \in DOMAIN BL |-> Num(i)], 1) \o "],\"w\":[" \o J([i \in DOMAIN BL |-> W(i)], 1)
         \o "],\"start\":" \o ToString(sc.start) \o ",\"T\":" \o ToString(sc.T)
         \o ",\"kind\":\"" \o sc.kind \o "\",\"wl\":[" \o (IF sc.wl = {} THEN "" ELSE ToString((CHOOSE x \in sc.wl : TRUE)[2]))
         \o "],\"pre\":[" \o J(IF sc.kind \in {"depth", "notice"} THEN <<sc.start>> ELSE sc.fixed, 1) \o "],\"seq\":[" \o J(hist, 1) \o "]}")
=============================================================================
