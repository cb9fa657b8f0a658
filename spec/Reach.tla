-------------------------------- MODULE Reach --------------------------------
(* How long a run of the application waits for the update server.  An         *)
(* exchange with the server has several points (connection, handshake, head   *)
(* of the answer, parts of it); before each of them the server is silent for  *)
(* some time.  The application waits at every point for as long as the        *)
(* timeout setting says at that moment, no longer and no shorter.             *)
EXTENDS Integers, Sequences

Points == 5

\* run: cmd; first: there are no settings yet, the dialog comes first; t1, t2:
\* the timeout before and after the dialog; zero: it sets the period to 0
Limit(run, k) == IF run.first /\ k > 1 THEN run.t2 ELSE run.t1

\* is there another exchange after exchange k, which was answered or not
More(run, k, ok) ==
    CASE run.cmd = "update" -> ok /\ k < 4
      [] run.first /\ run.cmd = "list" -> k = 1 /\ (~ok \/ run.zero)
      [] run.first /\ run.cmd = "gui" -> k = 1
      [] OTHER -> FALSE

RECURSIVE Waits(_, _, _)
\* pauses ps from point n on, with the limit t: how long it takes and whether
\* the whole answer arrives
Waits(t, ps, n) ==
    IF n > Len(ps) THEN [time |-> 0, ok |-> TRUE]
    ELSE IF ps[n] >= t THEN [time |-> t, ok |-> FALSE]
    ELSE LET w == Waits(t, ps, n + 1) IN [w EXCEPT !.time = @ + ps[n]]

RECURSIVE From(_, _, _, _)
From(run, ex, k, unit) ==
    LET w == Waits(Limit(run, k) * unit, ex[k], 1)
    IN  IF More(run, k, w.ok)
        THEN LET r == From(run, ex, k + 1, unit) IN [time |-> w.time + r.time, oks |-> <<w.ok>> \o r.oks]
        ELSE [time |-> w.time, oks |-> <<w.ok>>]

\* what the whole run waits, and which exchanges were answered
Outcome(run, ex, unit) == From(run, ex, 1, unit)
=============================================================================
