----------------------------- MODULE Ordering -----------------------------
(* Abstract specification of chain following: the updates (removed, added)  *)
(* that an ordered consumer may produce as blocks are handed to it.         *)
(*                                                                          *)
(* blocks: sequence of [num, w, par]; par = 0 is a block nobody knows.      *)
(* State: del (delivered blocks), head (0: none yet), anchor (blocks known  *)
(* to be on or connected to the chain at the start).                        *)
EXTENDS Naturals, Sequences, FiniteSets

Last(q) == q[Len(q)]
SetOf(q) == {q[i] : i \in DOMAIN q}

\* an update is applicable at `head` and leads to a chain
RemovedOK(bl, head, rem) ==
  /\ \A i \in DOMAIN rem : rem[i] \in DOMAIN bl
  /\ rem # <<>> => /\ Last(rem) = head
                   /\ \A i \in 1..(Len(rem) - 1) : bl[rem[i + 1]].par = rem[i]
Base(bl, head, rem) == IF rem = <<>> THEN head ELSE bl[rem[1]].par
Contiguous(bl, add) ==
  /\ add # <<>>
  /\ \A i \in DOMAIN add : add[i] \in DOMAIN bl
  /\ \A i \in 1..(Len(add) - 1) : bl[add[i + 1]].par = add[i]
AddedOK(bl, base, add) == Contiguous(bl, add) /\ bl[add[1]].par = base

Continuous(bl, head, u) == RemovedOK(bl, head, u.rem) /\ AddedOK(bl, Base(bl, head, u.rem), u.add)

\* a reorganisation is justified and minimal
Justified(bl, head, u) ==
  u.rem # <<>> => /\ bl[Last(u.add)].w > bl[head].w
                  /\ SetOf(u.rem) \cap SetOf(u.add) = {}

\* delivered blocks that are connected to `from` through delivered blocks
RECURSIVE Closure(_, _, _)
Closure(bl, del, from) ==
  LET next == from \cup {b \in del : bl[b].par \in from}
  IN IF next = from THEN from ELSE Closure(bl, del, next)

\* blocks excluded by a whitelist (set of <<number, block>>), and all that descend from them
ExcludedRoots(bl, wl) == {b \in DOMAIN bl : \E x \in wl : x[1] = bl[b].num /\ x[2] # b}
Excluded(bl, wl) == Closure(bl, DOMAIN bl, ExcludedRoots(bl, wl))

\* head is at least as heavy as every connected, permitted, delivered block
Heaviest(bl, head, conn) == \A b \in conn : bl[head].w >= bl[b].w
=============================================================================
