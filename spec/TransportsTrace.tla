-------------------------- MODULE TransportsTrace --------------------------
(* Validates recorded calls that resolve, resume and ask transports         *)
(* (kinds "resolve", "resume", "latest", "urlopts") against Transports.     *)
EXTENDS Transports, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop   == IOEnv.PROP

VARIABLES ti, l, err, acc
vars == <<ti, l, err, acc>>
T   == Traces[ti]
Ev  == T.ev[l]
Cfg == T.cfg
Kind == Cfg.kind
SetOf(q) == {q[i] : i \in DOMAIN q}
On(p) == Prop = p

Init == ti \in 1..Len(Traces) /\ l = 1 /\ err = FALSE /\ acc = FALSE
IsEvent(k, e) == ~acc /\ l <= Len(T.ev) /\ Kind = k /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED <<ti, acc>>

Urls == [i \in DOMAIN Cfg.urls |-> Cfg.urls[i].kind]
Resolve == /\ IsEvent("resolve", "resolve") /\ err' = Ev.err
           /\ On("C23") => Ev.err = MustErr(Cfg.fn, Urls)
\* exactly the named transports are contacted, for exactly their topics; a list
\* that is refused starts no consumer
ContactsOK(g) ==
  /\ Len(g) = Len(Cfg.urls)
  /\ IF ~err THEN \A i \in DOMAIN g : g[i] = Cfg.urls[i].want
     ELSE ~Producing(Cfg.fn) => \A i \in DOMAIN g : g[i] = <<>>
Contacts == IsEvent("resolve", "contacts") /\ (On("C23") => ContactsOK(Ev.got)) /\ UNCHANGED err

Token == IsEvent("resume", "token") /\ (On("C23") => Ev.err = Cfg.miss) /\ UNCHANGED err
Got   == /\ IsEvent("resume", "got") /\ UNCHANGED err
         /\ On("C23") => Ev.odd = 0 /\ \A i \in DOMAIN Cfg.parts : ResumeOK(Cfg.parts[i], Cfg.t, Ev.got[i])

LatestE == IsEvent("latest", "latest") /\ UNCHANGED err
           /\ (On("C23") => ~Ev.err /\ Ev.n = LatestOfAll(Cfg.logs))

Parse == IsEvent("urlopts", "parsed") /\ UNCHANGED err
         /\ (On("C23") => Ev.got = Parsed(Cfg.opts, Cfg.addrs, Cfg.user, Cfg.pass, Cfg.num))

Accept == /\ ~acc /\ l = Len(T.ev) + 1 /\ PrintT(<<"ACCEPT", ti>>) /\ acc' = TRUE /\ UNCHANGED <<ti, l, err>>
Consume == Resolve \/ Contacts \/ Token \/ Got \/ LatestE \/ Parse
Reject == /\ ~acc /\ l <= Len(T.ev) /\ ~ENABLED Consume /\ PrintT(<<"REJECT", ti, l, T.id>>)
          /\ acc' = TRUE /\ UNCHANGED <<ti, l, err>>
Next == Consume \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
