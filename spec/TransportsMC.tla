--------------------------- MODULE TransportsMC ---------------------------
(* Asking a log for the position of a moment while it is being written: the *)
(* end of a partition and the first record of that moment are asked for     *)
(* separately. Design "newest" is the code's : the *)
(* end is asked for first and stands in if there is no such record yet;     *)
(* "after" asks for the end afterwards; "start" leaves it to the start.     *)
EXTENDS Transports, TLC
CONSTANTS MaxTs, MaxLen, T, Design

VARIABLES log,     \* timestamps; offset of the first is 0
          at,      \* records there when the token was asked for
          pc, newest, tok, first
vars == <<log, at, pc, newest, tok, first>>
Seqs == UNION {[1..n -> 0..MaxTs] : n \in 0..MaxLen}
Init == log \in {s \in Seqs : Len(s) < MaxLen} /\ at = Len(log) /\ pc = "ask" /\ newest = -1 /\ tok = -1 /\ first = -1
Write == /\ Len(log) < MaxLen /\ \E ts \in 0..MaxTs : log' = Append(log, ts)
         /\ at' = IF pc = "ask" THEN Len(log) + 1 ELSE at
         /\ UNCHANGED <<pc, newest, tok, first>>
Found == {i - 1 : i \in {j \in DOMAIN log : log[j] >= T}}
AskEnd == /\ pc = "ask" /\ pc' = "end" /\ newest' = Len(log) /\ at' = Len(log)
          /\ UNCHANGED <<log, tok, first>>
AskTime == /\ pc = "end" /\ pc' = "token"
           /\ tok' = IF Found # {} THEN MinOf(Found) ELSE IF Design = "newest" THEN newest ELSE -1
           /\ UNCHANGED <<log, at, newest, first>>
AskAfter == /\ pc = "token" /\ pc' = "token2"
            /\ tok' = IF tok < 0 /\ Design = "after" THEN Len(log) ELSE tok
            /\ UNCHANGED <<log, at, newest, first>>
Start == /\ pc = "token2" /\ pc' = "run" /\ first' = IF tok >= 0 THEN tok ELSE Len(log)
         /\ UNCHANGED <<log, at, newest, tok>>
Next == Write \/ AskEnd \/ AskTime \/ AskAfter \/ Start
Spec == Init /\ [][Next]_vars

P == [start |-> 0, at |-> at, ts |-> log]
\* C23: no record of that moment or newer is skipped, and nothing is read that
\* was there and older than the first of them
NothingSkipped == pc = "run" => ResumeOK(P, T, [i \in 1..(Len(log) - first) |-> first + i - 1])

\* C23: what is refused
ASSUME \A fn \in Fns : Accepted(fn) \subseteq Kinds \ {"bad"}
ASSUME \A k \in Kinds : \A fn \in Fns : MustErr(fn, <<k>>) => MustErr(fn, <<"kafka", k>>)
\* every list of URLs for every function
UrlLists(fn) == UNION {[1..n -> Kinds] : n \in IF Lists(fn) THEN 1..3 ELSE {1}}
RECURSIVE Str(_)
Str(u) == IF u = <<>> THEN "" ELSE "\"" \o u[1] \o "\"" \o (IF Len(u) > 1 THEN "," ELSE "") \o Str(Tail(u))
Gen(fn, u) == PrintT("SCHED {\"fn\":\"" \o fn \o "\",\"urls\":[" \o Str(u) \o "]}")
ASSUME Design = "gen" => \A fn \in Fns : \A u \in UrlLists(fn) : Gen(fn, u)
=============================================================================
