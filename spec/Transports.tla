---------------------------- MODULE Transports ----------------------------
(* Abstract specification of how transports are named and resumed: which    *)
(* URLs each function takes, which of them a resolved transport contacts,   *)
(* where a consumer begins that resumes from a moment in time, what the     *)
(* latest block of a feed is, and what the options of a Kafka URL stand     *)
(* for.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets

\* kinds of URLs: c* with the prefix "cardinal://"
Kinds == {"kafka", "ckafka", "ws", "cws", "null", "cnull", "bad"}
Fns   == {"consumer", "muxconsumer", "oldproducer", "producer", "muxproducer", "timestamp"}
Lists(fn) == fn \in {"muxconsumer", "muxproducer", "timestamp"}
Producing(fn) == fn \in {"oldproducer", "producer", "muxproducer"}
Accepted(fn) ==
  CASE fn \in {"consumer", "muxconsumer"} -> Kinds \ {"bad"}
    [] fn \in {"producer", "muxproducer"} -> {"kafka", "ckafka", "ws", "cws"}
    [] fn = "oldproducer"                 -> {"kafka", "ckafka"}
    [] fn = "timestamp"                   -> {"kafka", "ckafka", "null", "cnull"}
MustErr(fn, kinds) == \E i \in DOMAIN kinds : kinds[i] \notin Accepted(fn)

\* --- resuming from a moment -------------------------------------------------
\* part: [start, at, ts]: the records from offset start have the timestamps ts;
\* those from offset `at` on were written after the token was asked for
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Newer(p, t) == {p.start + i - 1 : i \in {j \in DOMAIN p.ts : p.ts[j] >= t}}
End(p) == p.start + Len(p.ts)
\* earliest and latest record to begin with: nothing is read before the first
\* record of that moment (or what comes next, if there is none yet), and no
\* record of that moment or newer is skipped
Lower(p, t) == MinOf({o \in Newer(p, t) : o < p.at} \cup {p.at})
Upper(p, t) == MinOf(Newer(p, t) \cup {End(p)})
ResumeOK(p, t, got) ==
  \E f \in Lower(p, t)..Upper(p, t) :
    got = [i \in 1..(End(p) - f) |-> f + i - 1]

\* --- the latest block of a feed ---------------------------------------------
\* log: parts: [start, end, heads: [o, n]]; the last Scan records count
Scan == 100
HeadsOf(p) == {p.heads[i].n : i \in {j \in DOMAIN p.heads : p.heads[j].o >= p.end - Scan /\ p.heads[j].o >= p.start}}
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Latest(log) == MaxOf({0} \cup UNION {HeadsOf(log.parts[i]) : i \in DOMAIN log.parts})
\* of several feeds, the one that is furthest behind
LatestOfAll(logs) == MinOf({Latest(logs[i]) : i \in DOMAIN logs})

\* --- options of a Kafka URL --------------------------------------------------
Opt(v, num, dflt, given) == IF v = num THEN num ELSE IF v \in given THEN v ELSE dflt
Parsed(o, addrs, user, pass, num) ==
  [addrs   |-> addrs,
   tls     |-> o["tls"] = "1",
   fetch   |-> Opt(o["fetch.default"], num, "default", {}),
   wait    |-> Opt(o["max.waittime"], num, "default", {}),
   codec   |-> Opt(o["compression.codec"], "-", "snappy", {"gzip", "none", "lz4", "zstd"}),
   retries |-> Opt(o["message.send.max.retries"], num, "100", {"0"}),
   acks    |-> Opt(o["request.required.acks"], "-", "-1", {"0", "1"}),
   backoff |-> Opt(o["retry.backoff.ms"], num, "default", {}),
   open    |-> Opt(o["net.maxopenrequests"], num, "default", {}),
   idem    |-> o["idempotent"] = "1",
   sasl    |-> user # "", user |-> user, pass |-> pass,
   mech    |-> Opt(o["sasl.mechanism"], "-", "", {"SCRAM-SHA-256", "SCRAM-SHA-512", "GSSAPI"}),
   scram   |-> IF o["sasl.mechanism"] = "SCRAM-SHA-256" THEN "32"
               ELSE IF o["sasl.mechanism"] = "SCRAM-SHA-512" THEN "64" ELSE ""]
=============================================================================
