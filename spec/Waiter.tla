------------------------------ MODULE Waiter ------------------------------
(* Abstract specification of waiting for a block: what a wait may answer,   *)
(* given which blocks were announced and which were marked as done by the   *)
(* application.  A target is a block (by hash) or a number.                 *)
EXTENDS Naturals, Sequences, FiniteSets

\* the blocks that a target stands for
Meant(num, w) == IF w.k = "h" THEN {w.t} ELSE {b \in DOMAIN num : num[b] = w.t}
Hit(num, w, bs) == Meant(num, w) \cap bs # {}

\* resolved successfully only if the application is done with such a block
SuccessOK(num, w, done) == Hit(num, w, done)
\* not found only if it had not been announced when the wait began, and
\* necessarily if it never was
NotFoundOK(num, w, annAtStart) == ~Hit(num, w, annAtStart)
MustNotFind(num, w, annByNow) == ~Hit(num, w, annByNow)
\* giving up is for blocks that the application was not done with in time
TimeoutOK(num, w, doneAtStart, done, elapsed) ==
  /\ elapsed >= w.to
  /\ ~Hit(num, w, doneAtStart)
  /\ w.long => ~Hit(num, w, done)
=============================================================================
