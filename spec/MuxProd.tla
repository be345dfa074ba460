------------------------------ MODULE MuxProd ------------------------------
(* A producer over several transports: Kafka logs (KafkaProd) and, as the    *)
(* last one if there is one, a websocket feed. Every call is made on every   *)
(* transport, whatever the others answer; a call fails iff it fails on one   *)
(* of them, with one of their errors. Transports that nothing can be written *)
(* to (broken) do not keep the others from getting everything.               *)
EXTENDS KafkaProd

\* Websocket: [pend, log]; log is the sequence of <<kind, block, detail>>
WsEmpty == [pend |-> {}, log |-> <<>>]
WsOnAdd(w, b, blk) == [pend |-> {p \in w.pend : p[1] \notin Ids(blk)} \cup {<<id, b>> : id \in Ids(blk)},
                       log |-> Append(w.log, <<"add", b, "">>)]
WsOnSend(w, id) == IF Pending(w.pend, id)
                   THEN [pend |-> AfterSend(w.pend, id), log |-> Append(w.log, <<"sub", BlockOf(w.pend, id), id>>)]
                   ELSE w
WsSendErrors(w, id) == IF Pending(w.pend, id) THEN {} ELSE {"unknown"}
WsOnNotice(w, b, n) == [w EXCEPT !.log = Append(@, <<"reorg", b, n>>)]

\* mux state: [k, ws, hasws, broken, heads]; heads: per log the blocks whose header is on it
MuxInit(nk, hasws) == [k |-> [i \in 1..nk |-> Empty], ws |-> WsEmpty, hasws |-> hasws,
                       broken |-> {}, heads |-> [i \in 1..nk |-> {}]]
MuxAdd(m, b, blk) ==
  [m EXCEPT !.k = [i \in DOMAIN @ |-> OnAdd(@[i], b, blk)],
            !.ws = IF m.hasws THEN WsOnAdd(@, b, blk) ELSE @,
            !.heads = [i \in DOMAIN @ |-> IF Writes(m.k[i], b, blk) THEN @[i] \cup {b} ELSE @[i]]]
MuxSend(m, id) ==
  [m EXCEPT !.k = [i \in DOMAIN @ |-> OnSend(@[i], id)], !.ws = IF m.hasws THEN WsOnSend(@, id) ELSE @]
MuxSeen(m, i, b) == [m EXCEPT !.k[i] = OnSeen(@, b), !.heads[i] = @ \cup {b}]
MuxPurge(m) == [m EXCEPT !.k = [i \in DOMAIN @ |-> OnPurge(@[i])]]
MuxNotice(m, b, n) == IF m.hasws THEN [m EXCEPT !.ws = WsOnNotice(@, b, n)] ELSE m
MuxFail(m, i) == [m EXCEPT !.broken = @ \cup {i}]

Working(m) == DOMAIN m.k \ m.broken
\* the errors that a call may give: those of the transports it fails on
AddErrors(m, b, blk) == UNION {IF b \in m.k[i].seen THEN {} ELSE Errors(blk) : i \in Working(m)}
SendErrors(m, id) ==
  UNION {IF SendResult(m.k[i], id) = "unknown" THEN {"unknown"} ELSE {} : i \in Working(m)}
    \cup (IF m.hasws THEN WsSendErrors(m.ws, id) ELSE {})
\* With broken transports there may be errors that say nothing about the call
ErrOk(m, err, errs) ==
  IF errs # {} THEN err # "ok" /\ (err \in errs \/ m.broken # {})
  ELSE err = "ok" \/ m.broken # {}

\* The feed that is furthest behind decides where to go on (0: nothing on it).
\* Blocks are numbered along one chain; a websocket has nothing to say.
Top(s) == IF s = {} THEN 0 ELSE CHOOSE x \in s : \A y \in s : y <= x
Latest(m) == LET tops == {Top(m.heads[i]) : i \in DOMAIN m.heads} IN
             CHOOSE x \in tops : \A y \in tops : x <= y
=============================================================================
