---------------------------- MODULE KafkaProdMC ----------------------------
(* Every sequence of calls, of headers seen on the log and of purges, up to *)
(* a length, for a block with two subbatches and one with one.              *)
EXTENDS KafkaProd
CONSTANTS Len0, Printing

Sub(p, id) == [path |-> p, id |-> id, topic |-> "t", zero |-> FALSE]
Defs == <<[items |-> <<>>, subs |-> <<Sub("s/", "11"), Sub("q/", "12")>>],
          [items |-> <<>>, subs |-> <<Sub("s/", "21")>>]>>
VARIABLES st, calls,
          log   \* what others and we wrote: <<"H", b>> or <<"S", id>>, with who
vars == <<st, calls, log>>
Init == st = Empty /\ calls = <<>> /\ log = <<>>
Call(c, a) == calls' = Append(calls, <<c, a>>)
Add(b) == /\ st' = OnAdd(st, b, Defs[b]) /\ Call("add", ToString(b))
          /\ log' = IF Writes(st, b, Defs[b]) THEN Append(log, <<"H", ToString(b), "me">>) ELSE log
Send(id) == /\ st' = OnSend(st, id) /\ Call("send", id)
            /\ log' = IF SendResult(st, id) = "write" THEN Append(log, <<"S", id, "me">>) ELSE log
Seen(b) == st' = OnSeen(st, b) /\ Call("seen", ToString(b)) /\ log' = Append(log, <<"H", ToString(b), "they">>)
Purge == st' = OnPurge(st) /\ Call("purge", "0") /\ log' = Append(log, <<"P", "", "">>)
Next == /\ Len(calls) < Len0
        /\ (\E b \in 1..2 : Add(b) \/ Seen(b)) \/ (\E id \in {"11", "12", "21"} : Send(id)) \/ Purge
Spec == Init /\ [][Next]_vars

\* between purges we write a header at most once, and never after it was seen
OnceBetweenPurges ==
  \A i, j \in DOMAIN log : i < j /\ log[i][1] = "H" /\ log[j][1] = "H" /\ log[i][2] = log[j][2] /\ log[j][3] = "me"
     => \E k \in i..j : log[k][1] = "P"
\* a subbatch that we write follows a header that we wrote, and is written once per header
Announced ==
  \A j \in DOMAIN log : log[j][1] = "S" =>
     \E i \in 1..(j-1) : /\ log[i][1] = "H" /\ log[i][3] = "me" /\ log[j][2] \in UNION {Ids(Defs[b]) : b \in {x \in 1..2 : ToString(x) = log[i][2]}}
                         /\ \A k \in (i+1)..(j-1) : log[k][1] = "S" => log[k][2] # log[j][2]
RECURSIVE Str(_)
Str(c) == IF c = <<>> THEN "" ELSE
          "[\"" \o c[1][1] \o "\",\"" \o c[1][2] \o "\"]" \o (IF Len(c) > 1 THEN "," ELSE "") \o Str(Tail(c))
Gen == Printing /\ Len(calls) = Len0 => PrintT("SCHED {\"calls\":[" \o Str(calls) \o "]}")
=============================================================================
