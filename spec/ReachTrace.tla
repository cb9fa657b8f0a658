------------------------------ MODULE ReachTrace ------------------------------
(* Runs of the real program with an update server that is slow or silent,     *)
(* in milliseconds.                                                           *)
EXTENDS Reach, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, bad

vars == <<tid, i, bad>>

Ev == Traces[tid].ev

Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = {}

If(c, s) == IF c THEN s ELSE {}
Mark(s) == bad' = bad \cup {[p |-> p, i |-> i] : p \in s}

RECURSIVE Count(_, _)
Count(s, n) == IF n > Len(s) THEN 0 ELSE (IF s[n] THEN 1 ELSE 0) + Count(s, n + 1)

\* what the run did with the answers
Right(op, w, o) ==
    CASE op.run.cmd = "update" ->
           IF Len(w.oks) = 4 /\ Count(w.oks, 1) = 4 THEN o.rc = 0 /\ o.app = "new" ELSE o.rc = 1 /\ o.app = "old" /\ o.said
      [] op.run.cmd = "gui" -> o.notices = Count(SubSeq(w.oks, 1, Len(w.oks) - 1), 1) /\ o.header = (IF w.oks[Len(w.oks)] THEN "new" ELSE "failed")
      [] OTHER -> o.notices = Count(w.oks, 1)

\* the command did what it is for
Works(op, o) == op.run.cmd = "update" \/ (o.work /\ o.rc = 0)

Step ==
    LET op == Ev[i].op
        o == Ev[i].obs
        w == Outcome(op.run, op.ex, 1000)
    IN  IF o.crash # "" THEN Mark({"C26", "C22"})
        ELSE IF ~o.ended THEN Mark({"C26", "C22"})
        ELSE Mark(If(o.ms < w.time - 600 \/ o.ms > w.time + op.slack, {"C26"})
                  \cup If(~Right(op, w, o), {"C26"})
                  \cup If(op.run.cmd = "gui" /\ ~op.run.first /\ o.shown > op.slack, {"C26", "C22"})
                  \cup If(~Works(op, o), {"C26", "C22"}))

Next == i <= Len(Ev) /\ Step /\ i' = i + 1 /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

View == <<tid, i>>

Done == i > Len(Ev)
Report == Done /\ bad # {} => PrintT("BAD " \o ToJson([tid |-> tid, bad |-> bad]))
Ends == Done => PrintT("DONE " \o ToString(tid))
=============================================================================
