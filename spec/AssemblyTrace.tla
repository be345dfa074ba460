--------------------------- MODULE AssemblyTrace ---------------------------
(* Validates recorded executions of the real reassembly code against       *)
(* Assembly.  Every line of the input is one trace: [id, cfg, ev].          *)
(* Prop selects which property's clauses are enforced; everything else is   *)
(* observed but not judged.                                                 *)
EXTENDS Assembly, TLC, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop   == IOEnv.PROP
On(p)  == Prop = p

VARIABLES ti, l, s, cp, goal, acc,
          hist     \* the states so far, where diagnoses are asked for concurrently
vars == <<ti, l, s, cp, goal, acc, hist>>

T   == Traces[ti]
Cfg == T.cfg
Ev  == T.ev[l]
NB  == Len(Cfg.blocks)
Tracked == {Cfg.tracked[i] : i \in DOMAIN Cfg.tracked}
NeededOf == [b \in 1..NB |-> Needed(Cfg.blocks[b], Tracked)]
Window == 2 * Cfg.T

Init == /\ ti \in 1..Len(Traces)
        /\ l = 1
        /\ s = IF "blocks" \in DOMAIN Traces[ti].cfg THEN InitState(Len(Traces[ti].cfg.blocks)) ELSE InitState(0)
        /\ cp = [b \in DOMAIN s.got |-> {}]    \* copies seen: <<m, source, offset>>
        /\ goal = 0                            \* block that a restart has to bring back
        /\ acc = FALSE
        /\ hist = <<s>>

IsEvent(e) == ~acc /\ l <= Len(T.ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED <<ti, acc>>
Asked == Cfg.kind = "asks"

Range(q) == {q[i] : i \in DOMAIN q}
Out(em) == [i \in DOMAIN em |-> em[i].b + 1]

\* C01/C05: content
ExpVal(blk) == {<<blk.items[i].k, blk.items[i].v>> : i \in {j \in DOMAIN blk.items : blk.items[j].rec \in Tracked /\ ~blk.items[j].del}}
ExpDel(blk) == {blk.items[i].k : i \in {j \in DOMAIN blk.items : blk.items[j].rec \in Tracked /\ blk.items[j].del}}
Exact(x) == /\ x.b >= 0
            /\ LET blk == Cfg.blocks[x.b + 1] IN
               /\ x.num = blk.num /\ x.w = blk.w /\ x.par = blk.par
               /\ {<<x.val[i][1], x.val[i][2]>> : i \in DOMAIN x.val} = ExpVal(blk)
               /\ Range(x.del) = ExpDel(blk)
AllExact(em) == \A i \in DOMAIN em : Exact(em[i])
Known(em) == \A i \in DOMAIN em : em[i].b >= 0

\* C08: the token must not skip the only copy of something needed
TokHas(tok, src) == \E i \in DOMAIN tok : tok[i][1] = src
TokOff(tok, src) == tok[CHOOSE i \in DOMAIN tok : tok[i][1] = src][2]
TokenCovers(x, copies) ==
  \* (as a set, because TLC would take the quantifiers for a choice of successors)
  NeededOf[x.b + 1] \subseteq {c[1] : c \in {d \in copies[x.b + 1] : TokHas(x.tok, d[2]) => TokOff(x.tok, d[2]) <= d[3]}}

\* C22: diagnostics
WhyIs(st, b, w) ==
  LET blk == Cfg.blocks[b]
      miss == NeededOf[b] \ st.got[b]
      hdr == \E i \in st.got[b] : blk.msgs[i].t = "H"
  IN CASE st.phase[b] = "lax" -> TRUE
       [] st.phase[b] = "done" -> w[1] # "ready" => w[1] = "notfound"
       [] ~hdr -> w[1] = "notfound"
       [] OTHER -> CASE w[1] = "ready" -> FALSE
                     [] w[1] = "notfound" -> FALSE
                     [] w[1] = "prefix" -> \E i \in miss : blk.msgs[i].t \in {"U", "D"} /\ blk.msgs[i].rec = w[2]
                     [] w[1] = "batches" -> \E i \in miss : blk.msgs[i].t = "SH"
                     [] w[1] = "batch" -> \E i \in miss : blk.msgs[i].t = "SM"
                     [] OTHER -> TRUE

\* (compared with TRUE, because TLC would take the quantifiers for a choice of successors)
WhyOK(st, b, w) == WhyIs(st, b, w) = TRUE

Full == Cfg.full

Deliver ==
  /\ IsEvent("dlv")
  /\ LET b == Ev.b + 1
         m == Ev.m + 1
         out == Out(Ev.em)
         got1 == Got(s, b, m)
         cp1 == IF Ignored(s, b) THEN cp ELSE [cp EXCEPT ![b] = @ \cup {<<m, Ev.s, Ev.o>>}]
         s1 == AfterDeliver(s, b, m, out, Window)
         exact == AllExact(Ev.em)
         nopartial == \A x \in Range(out) : Complete(got1, x, NeededOf)
         prompt == MustEmit(s, b, m, NeededOf) \subseteq Range(out)
     IN
     /\ Known(Ev.em)
     /\ On("C01") => (Full => exact) /\ Ev.st # "panic"
     /\ On("C02") => nopartial
     /\ On("C03") => /\ \A x \in Range(out) : ~Ignored(s, x)
                     /\ \A i, j \in DOMAIN out : i # j => out[i] # out[j]
     /\ On("C04") => prompt /\ Ev.st = "ok"
     /\ On("C05") => (~Full => exact /\ nopartial /\ prompt /\ Ev.st = "ok")
     /\ On("C06") => (Cfg.np > 1 => exact /\ nopartial /\ prompt /\ Ev.st = "ok")
     /\ On("C08") => \A i \in DOMAIN Ev.em : (s.phase[out[i]] = "open" => TokenCovers(Ev.em[i], cp1))
     /\ On("C22") => (Asked \/ WhyOK(s1, b, Ev.why))
     /\ s' = s1
     /\ hist' = IF Asked THEN Append(hist, s1) ELSE hist
     /\ cp' = [x \in DOMAIN cp1 |-> IF s1.phase[x] = "lax" /\ s.phase[x] # "lax" THEN {} ELSE cp1[x]]
     /\ goal' = IF goal \in Range(out) /\ (\A i \in DOMAIN out : out[i] = goal => Exact(Ev.em[i])) THEN 0 ELSE goal

\* a block is handed over whole, as a websocket does
Whole ==
  /\ IsEvent("whole")
  /\ LET b == Ev.b + 1
         out == Out(Ev.em)
         s1 == AfterWhole(s, b, out, Window)
     IN
     /\ Known(Ev.em)
     /\ Prop \in {"C01", "C06"} => AllExact(Ev.em)
     /\ On("C02") => Range(out) \subseteq {b}
     /\ On("C03") => /\ \A x \in Range(out) : ~Ignored(s, x)
                     /\ \A i, j \in DOMAIN out : i # j => out[i] # out[j]
     /\ On("C04") => Ev.st = "ok" /\ (s.phase[b] = "open" => out = <<b>>)
     /\ On("C22") => WhyOK(s1, b, Ev.why)
     /\ s' = s1
     /\ hist' = IF Asked THEN Append(hist, s1) ELSE hist
     /\ cp' = [x \in DOMAIN cp |-> IF s1.phase[x] = "lax" /\ s.phase[x] # "lax" THEN {} ELSE cp[x]]
     /\ goal' = IF goal = b /\ out = <<b>> THEN 0 ELSE goal

\* several transports handed messages and whole blocks over at the same time
Parallel ==
  /\ IsEvent("par")
  /\ LET out == Out(Ev.em)
         wh == {Ev.whole[i] + 1 : i \in DOMAIN Ev.whole}
         got1 == [b \in DOMAIN s.got |-> s.got[b] \cup {Ev.got[b][i] + 1 : i \in DOMAIN Ev.got[b]}]
         due == {b \in DOMAIN s.got : s.phase[b] = "open" /\ (b \in wh \/ Complete(got1, b, NeededOf))}
         exact == AllExact(Ev.em)
         whole == Range(out) \subseteq due
         prompt == due \subseteq Range(out) /\ Ev.st = "ok"
     IN
     /\ Known(Ev.em)
     /\ On("C01") => (Full => exact)
     /\ On("C02") => whole
     /\ On("C03") => Cardinality(Range(out)) = Len(out)
     /\ On("C04") => prompt
     /\ On("C05") => (~Full => exact /\ whole /\ prompt)
     /\ On("C06") => exact /\ whole /\ prompt
     /\ s' = [s EXCEPT !.got = got1, !.phase = [b \in DOMAIN s.phase |-> IF b \in Range(out) THEN "done" ELSE s.phase[b]]]
  /\ UNCHANGED <<cp, goal, hist>>

AnswerOK(a) ==
  \E p \in a[2]..a[3] :
                  \/ WhyOK(hist[p + 1], a[1] + 1, a[4])
                  \/ (Cfg.ordered /\ hist[p + 1].phase[a[1] + 1] = "done" /\ a[4][1] = "other")
\* diagnoses <<block, lo, hi, answer>> that were asked for while messages came
\* in: lo of them had been handled when asking, hi had been handed over after
Asks ==
  /\ IsEvent("asks")
  /\ On("C22") => {i \in DOMAIN Ev.as : ~AnswerOK(Ev.as[i])} = {}
  /\ UNCHANGED <<s, cp, goal, hist>>

Final ==
  /\ IsEvent("final")
  /\ On("C01") => (Full => AllExact(Ev.fin))
  /\ On("C05") => (~Full => AllExact(Ev.fin))
  /\ On("C22") => \A i \in DOMAIN Ev.why : WhyOK(s, Ev.why[i][1] + 1, Ev.why[i][2])
  /\ UNCHANGED <<s, cp, goal, hist>>

\* a large reorg notice: subscribers hear of it exactly once, unchanged
Reorg ==
  /\ IsEvent("reorg")
  /\ On("C26") => Ev.st = "ok" /\ Ev.got = <<<<Ev.num, Ev.h>>>>
  /\ s' = AfterReorg(s)
  /\ cp' = [x \in DOMAIN cp |-> IF s'.phase[x] = "lax" /\ s.phase[x] # "lax" THEN {} ELSE cp[x]]
  /\ UNCHANGED <<goal, hist>>

\* a crash of the application, which comes back with a fresh consumer that
\* replays every source from the token of block Ev.b
Restart ==
  /\ IsEvent("restart")
  /\ s' = InitState(NB)
  /\ cp' = [b \in 1..NB |-> {}]
  /\ goal' = Ev.b + 1
  /\ UNCHANGED hist

End ==
  /\ IsEvent("end")
  /\ On("C08") => goal = 0
  /\ On("C06") => \A i, j \in DOMAIN Cfg.pm : Cfg.pm[i].b = Cfg.pm[j].b => Range(Cfg.pm[i].ms) = Range(Cfg.pm[j].ms)
  /\ UNCHANGED <<s, cp, goal, hist>>

\* the code under test crashed or hung: nothing more is delivered
Dead ==
  /\ (IsEvent("crash") \/ IsEvent("hang"))
  /\ Prop \in {"C02", "C03", "C08", "C22", "C26"}   \* safety clauses are not broken by it
  /\ ~(Prop = "C22" /\ Cfg.scen = "whyrace")        \* asking must not bring the consumer down
  /\ UNCHANGED <<s, cp, goal, hist>>

Accept == /\ ~acc /\ l = Len(T.ev) + 1
          /\ PrintT(<<"ACCEPT", ti>>)
          /\ acc' = TRUE /\ UNCHANGED <<ti, l, s, cp, goal, hist>>

Consume == Deliver \/ Whole \/ Parallel \/ Asks \/ Final \/ Reorg \/ Restart \/ End \/ Dead
Reject == /\ ~acc /\ l <= Len(T.ev) /\ ~ENABLED Consume
          /\ PrintT(<<"REJECT", ti, l, T.id>>)
          /\ acc' = TRUE /\ UNCHANGED <<ti, l, s, cp, goal, hist>>

Next == Consume \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
