----------------------------- MODULE MuxProdMC -----------------------------
(* Every sequence of calls, of headers seen on one of two logs and of purges *)
(* up to a length, for a producer of two logs and a websocket, with a block  *)
(* of two subbatches and one of one.                                         *)
EXTENDS MuxProd
CONSTANTS Len0, Printing

Sub(p, id) == [path |-> p, id |-> id, topic |-> "t", zero |-> FALSE]
Defs == <<[items |-> <<>>, subs |-> <<Sub("s/", "11"), Sub("q/", "12")>>],
          [items |-> <<>>, subs |-> <<Sub("s/", "21")>>]>>
VARIABLES m, calls, err   \* err: the errors that the last call may give
vars == <<m, calls, err>>
Init == m = MuxInit(2, TRUE) /\ calls = <<>> /\ err = {}
Call(c, a) == calls' = Append(calls, <<c, a>>)
Add(b) == m' = MuxAdd(m, b, Defs[b]) /\ Call("add", ToString(b)) /\ err' = AddErrors(m, b, Defs[b])
Send(id) == m' = MuxSend(m, id) /\ Call("send", id) /\ err' = SendErrors(m, id)
Seen(i, b) == m' = MuxSeen(m, i, b) /\ Call("seen", ToString(10*i + b)) /\ err' = {}
Purge == m' = MuxPurge(m) /\ Call("purge", "0") /\ err' = {}
Next == /\ Len(calls) < Len0
        /\ \/ \E b \in 1..2 : Add(b)
           \/ \E i \in 1..2, b \in 1..2 : Seen(i, b)
           \/ \E id \in {"11", "12", "21"} : Send(id)
           \/ Purge
Spec == Init /\ [][Next]_vars

\* After AddBlock its header is on every log and the feed.
Everywhere == Len(calls) > 0 /\ calls[Len(calls)][1] = "add" =>
  \A b \in 1..2 : ToString(b) = calls[Len(calls)][2] =>
    (\A i \in 1..2 : b \in m.heads[i]) /\ m.ws.log[Len(m.ws.log)] = <<"add", b, "">>
\* Nobody refuses a subbatch that every log is still to get or sees from another producer.
Agree == \A id \in {"11", "12", "21"} :
  (\A i \in 1..2 : SendResult(m.k[i], id) # "unknown") /\ Pending(m.ws.pend, id) => SendErrors(m, id) = {}
\* Nobody goes on from a block that one of the logs does not have.
LatestOk == \A i \in 1..2 : Latest(m) <= Top(m.heads[i])
RECURSIVE Str(_)
Str(c) == IF c = <<>> THEN "" ELSE
          "[\"" \o c[1][1] \o "\",\"" \o c[1][2] \o "\"]" \o (IF Len(c) > 1 THEN "," ELSE "") \o Str(Tail(c))
Gen == Printing /\ Len(calls) = Len0 => PrintT("SCHED {\"calls\":[" \o Str(calls) \o "]}")
=============================================================================
