---- MODULE OrderingMC ----
EXTENDS OrderingImpl

\* all trees over n blocks below a starting block, with weight steps from DW;
\* the first p blocks are a chain (the history that is handed over again)
RECURSIVE WeightOf(_, _, _), NumOf(_, _)
WeightOf(par, dw, i) == IF par[i] = 0 THEN 10 ELSE WeightOf(par, dw, par[i]) + dw[i]
NumOf(par, i) == IF par[i] = 0 THEN 100 ELSE NumOf(par, par[i]) + 1
Pars(n, p) == {f \in [1..n -> 0..(n - 1)] : \A i \in 1..n : IF i = 1 THEN f[i] = 0
                                                  ELSE IF i <= p THEN f[i] = i - 1 ELSE f[i] > 0 /\ f[i] < i}
DWs(n, p, DW) == {f \in [1..n -> DW] : \A i \in 1..p : f[i] = 1}
BlOf(par, dw) == [i \in DOMAIN par |-> [num |-> NumOf(par, i), w |-> WeightOf(par, dw, i), par |-> par[i]]]
Trees(n, p, DW) == {BlOf(par, dw) : par \in Pars(n, p), dw \in DWs(n, p, DW)}

Ord(n, p, DW, T) == {[bl |-> b, start |-> p, T |-> T, wl |-> {}, fixed |-> [i \in 1..p |-> i],
                      free |-> (p + 1)..n, kind |-> "ordering"] : b \in Trees(n, p, DW)}
\* one height is pinned to one block
Wl(n, DW, T) == UNION {{[bl |-> b, start |-> 1, T |-> T, wl |-> {<<b[x].num, x>>}, fixed |-> <<1>>,
                        free |-> 2..n, kind |-> "whitelist"] : x \in 2..n} : b \in Trees(n, 1, DW)}
\* a chain whose older history is being discarded (length k), then a fork of depth d <= T
DepthPar(k, d) == [i \in 1..(k + d + 1) |-> IF i = 1 THEN 0 ELSE IF i <= k THEN i - 1
                                              ELSE IF i = k + 1 THEN k - d ELSE i - 1]
Dep(T, K) == UNION {{[bl |-> BlOf(DepthPar(k, d), [i \in 1..(k + d + 1) |-> 1]), start |-> 1, T |-> T, wl |-> {},
                     fixed |-> [i \in 1..k |-> i], free |-> (k + 1)..(k + d + 1), kind |-> "depth"]
                     : d \in 1..(IF T < k - 1 THEN T ELSE k - 1)} : k \in 2..K}
Boot(n, DW) == {[bl |-> b, start |-> 0, T |-> 64, wl |-> {}, fixed |-> <<>>, free |-> 1..n, kind |-> "bootstrap"] : b \in Trees(n, 1, DW)}
\* no last block, and blocks come after what they build on
FreshStart(n, DW) == {[bl |-> b, start |-> 0, T |-> 64, wl |-> {}, fixed |-> <<1>>, free |-> 2..n, kind |-> "fresh"] : b \in Trees(n, 1, DW)}

\* a chain of k blocks, then a notice of a block of it (or of one never seen), then m blocks that continue from there
NoticeKnown(k, m, a, T) ==
  LET n == k + m
      par == [i \in 1..n |-> IF i = 1 THEN 0 ELSE IF i = k + 1 THEN a ELSE i - 1]
  IN {[bl |-> BlOf(par, [i \in 1..n |-> IF i <= k THEN 1 ELSE d]), start |-> 1, T |-> T, wl |-> {}, base |-> a,
       fixed |-> [i \in 1..k |-> i] \o <<0 - a>>, free |-> (k + 1)..n, kind |-> "notice"] : d \in {1, 3}}
NoticeNew(k, m, T) ==
  LET n == k + m + 1
      par == [i \in 1..n |-> IF i = 1 \/ i = k + 1 THEN 0 ELSE i - 1]
      bl(nn, w) == [i \in 1..n |-> IF i = 1 THEN [num |-> 100, w |-> 10, par |-> 0]
                     ELSE IF i <= k THEN [num |-> 99 + i, w |-> 9 + i, par |-> i - 1]
                     ELSE [num |-> nn + i - k, w |-> w + i - k, par |-> par[i]]]
  IN {[bl |-> bl(nn, w), start |-> 1, T |-> T, wl |-> {}, base |-> k + 1,
       fixed |-> [i \in 1..k |-> i] \o <<0 - (k + 1)>>, free |-> (k + 2)..n, kind |-> "notice"]
        : nn \in {90, 100, 110}, w \in {5, 20}}
\* the chain itself comes again from a on, and grows
NoticeBack(k, m, a, T) ==
  LET n == k + m
  IN {[bl |-> BlOf([i \in 1..n |-> i - 1], [i \in 1..n |-> 1]), start |-> 1, T |-> T, wl |-> {}, base |-> a,
       fixed |-> [i \in 1..k |-> i] \o <<0 - a>>, free |-> (a + 1)..n, kind |-> "notice"]}
ScNotice(T, m) == UNION {NoticeBack(x[1], m - x[1] + x[2], x[2], T) : x \in {y \in (3..7) \X (1..6) : y[2] < y[1] /\ y[1] - y[2] <= m}} \cup UNION {NoticeKnown(k, m, a, T) : k \in 3..7, a \in 1..2} \cup UNION {NoticeNew(k, m, T) : k \in 2..6}
ScNotice4 == ScNotice(1, 4) \cup ScNotice(3, 4)
ScNotice5 == ScNotice(2, 5) \cup ScNotice(3, 5)

ScOrd5 == Ord(5, 1, {1, 2}, 4)
ScOrd5p == Ord(5, 2, {1, 2}, 4)
ScOrd6 == Ord(6, 1, {1}, 5)
ScOrd6w == Ord(6, 1, {1, 2}, 5) \cup Ord(6, 3, {1, 2}, 5)
ScWl == Wl(5, {1}, 5)
ScWl2 == Wl(5, {1, 2}, 5)
ScDep == Dep(1, 5) \cup Dep(2, 8) \cup Dep(3, 9)
ScDep4 == Dep(4, 12)
ScBoot == Boot(5, {1, 2})
ScFresh == FreshStart(5, {1, 2})
ScFresh6 == FreshStart(6, {1, 2})
ScOrd5u == Ord(5, 1, {1}, 4)
ScBootu == Boot(5, {1})
ScSmall == Ord(4, 1, {1, 2}, 4)
====
