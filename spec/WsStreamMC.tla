----------------------------- MODULE WsStreamMC -----------------------------
(* Subscriptions of websocket clients that lose their connection: the server  *)
(* sends what the producer's history has from where the client resumes, then  *)
(* subscribes to the feed, then fills the gap between the two, then forwards  *)
(* what the producer published since. The client assembles blocks and         *)
(* remembers where to resume.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N,         \* blocks
          Cuts,      \* connections may be lost so often
          Instant,   \* messages arrive at once (for generating schedules)
          GapFill,   \* FALSE: ready right after the first history
          LiveFirst, \* TRUE: what is published while the gap is filled may be sent first
          Naive,     \* TRUE: resume from the block that was completed last
          KeepParts, \* TRUE: a copy in one piece does not end the assembly of the same block
          Printing

Blocks == 1..N
VARIABLES subs,   \* [b -> number of subbatches]
          pub,    \* blocks published
          sent,   \* <<b, s>> of published subbatches
          conn,   \* "down", "hist", "sub", "fill", "live"
          pos, top,  \* history: next block to send, last one
          live,   \* messages of the feed that were not forwarded
          wire,   \* messages on their way
          cuts,
          last,   \* the client resumes from here
          asm,    \* [b -> parts that are missing] of blocks under assembly
          got,    \* blocks handed on whole
          bad,    \* an incomplete block was handed on
          ready, log
vars == <<subs, pub, sent, conn, pos, top, live, wire, cuts, last, asm, got, bad, ready, log>>
view == <<subs, pub, sent, conn, pos, top, live, wire, cuts, last, asm, got, bad, ready>>

Parts(b) == {<<b, s>> : s \in 1..subs[b]}
Log(x) == log' = IF Printing THEN Append(log, x) ELSE log

Init == /\ subs \in [Blocks -> 0..2] /\ subs[N] < 2 /\ \E b \in Blocks : subs[b] > 0
        /\ pub \in 0..1 /\ sent = IF pub = 1 THEN Parts(1) ELSE {}
        /\ conn = "down" /\ pos = 0 /\ top = 0 /\ live = <<>> /\ wire = <<>> /\ cuts = 0
        /\ last = 0 /\ asm = <<>> /\ got = {0} /\ bad = FALSE /\ ready = FALSE
        /\ log = IF pub = 1 /\ Printing THEN <<"A">> ELSE <<>>

\* ---- the client -----------------------------------------------------------
\* c: [last, asm, got, bad]
Client == [last |-> last, asm |-> asm, got |-> got, bad |-> bad]
Without(f, b) == [x \in DOMAIN f \ {b} |-> f[x]]
Done(c, b) == [c EXCEPT !.got = @ \cup {b}, !.last = IF Naive \/ {x \in DOMAIN c.asm : c.asm[x] # {}} = {} THEN b ELSE @]
OnMsg(c, m) ==
  CASE m[1] = "w" -> IF KeepParts THEN Done([c EXCEPT !.asm = [x \in DOMAIN @ |-> IF x = m[2] THEN {} ELSE @[x]]], m[2])
                     ELSE Done([c EXCEPT !.asm = Without(@, m[2])], m[2])
    [] m[1] = "h" -> IF Parts(m[2]) = {} THEN Done([c EXCEPT !.asm = Without(@, m[2])], m[2])
                     ELSE [c EXCEPT !.asm = (m[2] :> Parts(m[2])) @@ @]
    [] m[1] = "s" -> IF m[2] \notin DOMAIN c.asm THEN c
                     ELSE LET left == c.asm[m[2]] \ {<<m[2], m[3]>>}
                              c2 == [c EXCEPT !.asm[m[2]] = left] IN
                          IF left # {} THEN c2
                          ELSE Done([c2 EXCEPT !.asm = Without(@, m[2]),
                                               !.bad = @ \/ c.asm[m[2]] = {}], m[2])
Deliver(m) == LET c == OnMsg(Client, m) IN
              last' = c.last /\ asm' = c.asm /\ got' = c.got /\ bad' = c.bad
\* sending m; it is received now or later
Send(m) == IF Instant THEN Deliver(m) /\ UNCHANGED wire
           ELSE wire' = Append(wire, m) /\ UNCHANGED <<last, asm, got, bad>>
Quiet == UNCHANGED <<wire, last, asm, got, bad>>

Recv == /\ wire # <<>> /\ Deliver(Head(wire)) /\ wire' = Tail(wire)
        /\ UNCHANGED <<subs, pub, sent, conn, pos, top, live, cuts, ready, log>>
Cut == /\ conn # "down" /\ cuts < Cuts /\ cuts' = cuts + 1
       /\ conn' = "down" /\ live' = <<>> /\ wire' = <<>> /\ asm' = <<>>
       /\ Log("x") /\ UNCHANGED <<subs, pub, sent, pos, top, last, got, bad, ready>>

\* ---- the producer ---------------------------------------------------------
Feed(m) == live' = IF conn \in {"sub", "fill", "live"} THEN Append(live, m) ELSE live
Add == /\ pub < N /\ pub' = pub + 1 /\ Feed(<<"h", pub + 1, 0>>)
       /\ Log("a") /\ UNCHANGED <<subs, sent, conn, pos, top, cuts, ready>> /\ Quiet
Sub == \E b \in 1..pub : \E p \in Parts(b) \ sent :
       /\ sent' = sent \cup {p} /\ Feed(<<"s", b, p[2]>>)
       /\ Log("s" \o ToString(b) \o "/" \o ToString(p[2])) /\ UNCHANGED <<subs, pub, conn, pos, top, cuts, ready>> /\ Quiet

\* ---- the server -----------------------------------------------------------
Connect == /\ conn = "down" /\ conn' = "hist" /\ pos' = (IF last = 0 THEN 1 ELSE last) /\ top' = pub
           /\ Log("c") /\ UNCHANGED <<subs, pub, sent, live, cuts, ready>> /\ Quiet
SendHist == /\ conn \in {"hist", "fill"} /\ pos <= top /\ pos' = pos + 1
            /\ Send(<<"w", pos, 0>>)
            /\ Log("h") /\ UNCHANGED <<subs, pub, sent, conn, top, live, cuts, ready>>
Subscribe == /\ conn = "hist" /\ pos > top /\ conn' = "sub"
             /\ Log("b") /\ UNCHANGED <<subs, pub, sent, pos, top, live, cuts, ready>> /\ Quiet
Fill == /\ conn = "sub" /\ conn' = "fill"
        /\ IF GapFill THEN pos' = (IF pos > 1 THEN pos - 1 ELSE 1) /\ top' = pub ELSE UNCHANGED <<pos, top>>
        /\ Log("g") /\ UNCHANGED <<subs, pub, sent, live, cuts, ready>> /\ Quiet
Ready == /\ conn = "fill" /\ pos > top /\ conn' = "live" /\ ready' = TRUE
         /\ Log("r") /\ UNCHANGED <<subs, pub, sent, pos, top, live, cuts>> /\ Quiet
Forward == /\ conn \in (IF LiveFirst THEN {"fill", "live"} ELSE {"live"}) /\ live # <<>>
           /\ Send(Head(live)) /\ live' = Tail(live)
           /\ Log("f") /\ UNCHANGED <<subs, pub, sent, conn, pos, top, cuts, ready>>

Next == Recv \/ Cut \/ Add \/ Sub \/ Connect \/ SendHist \/ Subscribe \/ Fill \/ Ready \/ Forward
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(Recv \/ Add \/ Sub \/ Connect \/ SendHist \/ Subscribe \/ Fill \/ Ready \/ Forward)

\* the client never resumes after a block that it does not have whole
ResumeSafe == \A b \in 1..last : b \in got
NoPartial == ~bad
\* everything arrives
AllDone == pub = N /\ sent = UNION {Parts(b) : b \in Blocks} /\ conn = "live" /\ live = <<>> /\ wire = <<>>
Arrived == AllDone => Blocks \subseteq got
Progress == <>(Blocks \subseteq got)

RECURSIVE Str(_)
Str(c) == IF c = <<>> THEN "" ELSE "\"" \o c[1] \o "\"" \o (IF Len(c) > 1 THEN "," ELSE "") \o Str(Tail(c))
RECURSIVE Nums(_)
Nums(n) == IF n = 0 THEN "" ELSE Nums(n - 1) \o (IF n > 1 THEN "," ELSE "") \o ToString(subs[n])
\* the last block is published while the client is connected and live
Gen == Printing /\ AllDone /\ cuts = Cuts =>
       PrintT("SCHED {\"subs\":[" \o Nums(N) \o "],\"log\":[" \o Str(log) \o "]}")
=============================================================================
