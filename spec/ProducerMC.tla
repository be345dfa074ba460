---------------------------- MODULE ProducerMC ----------------------------
(* Every sequence of producer calls up to a length, over an acceptable      *)
(* block with two subbatches, one with an unusable batch id and one with    *)
(* conflicting prefixes.                                                    *)
EXTENDS Producer, TLC
CONSTANTS Len0, Printing

It(k, c, r, d) == [k |-> k, v |-> "v", rec |-> r, del |-> d, cls |-> c, topic |-> "t"]
Sub(p, id, z) == [path |-> p, id |-> id, topic |-> "t", zero |-> z]
Defs == <<[items |-> <<It("x", "inline", "x", FALSE), It("a/1", "cnt", "a/", FALSE), It("a/2", "cnt", "a/", TRUE), It("s/1", "sub", "s/", FALSE)>>,
           subs |-> <<Sub("s/", "i1", FALSE), Sub("q/", "i2", FALSE)>>],
          [items |-> <<It("x", "inline", "x", FALSE)>>, subs |-> <<Sub("s/", "i3", FALSE), Sub("q/", "0", TRUE)>>],
          [items |-> <<It("a/1", "cnt", "a/", FALSE)>>, subs |-> <<Sub("s/", "i4", FALSE), Sub("a/", "i5", FALSE)>>]>>
Sendable == {"i1", "i2", "i3", "i4", "no"}

VARIABLES pend, calls, hdrs, sent
vars == <<pend, calls, hdrs, sent>>
Init == pend = {} /\ calls = <<>> /\ hdrs = <<0, 0, 0>> /\ sent = <<>>
Add(b) == /\ pend' = AfterAdd(pend, b, Defs[b])
          /\ hdrs' = IF Accepted(Defs[b]) THEN [hdrs EXCEPT ![b] = @ + 1] ELSE hdrs
          /\ calls' = Append(calls, <<"add", ToString(b)>>) /\ UNCHANGED sent
Send(id) == /\ pend' = AfterSend(pend, id)
            /\ sent' = IF Pending(pend, id) THEN Append(sent, <<id, BlockOf(pend, id)>>) ELSE sent
            /\ calls' = Append(calls, <<"send", id>>) /\ UNCHANGED hdrs
Next == /\ Len(calls) < Len0
        /\ (\E b \in 1..3 : Add(b)) \/ (\E id \in Sendable : Send(id))
Spec == Init /\ [][Next]_vars

\* every subbatch that is published belongs to a published header that announced it, and follows it
Announced == \A i \in DOMAIN sent : hdrs[sent[i][2]] > 0 /\ sent[i][1] \in Ids(Defs[sent[i][2]])
\* and is published at most once per announcement
OncePer == \A id \in Sendable : Cardinality({i \in DOMAIN sent : sent[i][1] = id}) <= hdrs[1]
PendAnnounced == \A p \in pend : hdrs[p[2]] > 0
\* distinct prefixes in a header
ASSUME \A b \in 1..3 : Accepted(Defs[b]) => Cardinality({r[1] : r \in HeaderRecs(Defs[b])}) = Cardinality(HeaderRecs(Defs[b]))
RECURSIVE Str(_)
Str(c) == IF c = <<>> THEN "" ELSE
          "[\"" \o c[1][1] \o "\",\"" \o c[1][2] \o "\"]" \o (IF Len(c) > 1 THEN "," ELSE "") \o Str(Tail(c))
Gen == Printing /\ Len(calls) = Len0 => PrintT("SCHED {\"calls\":[" \o Str(calls) \o "]}")
=============================================================================
