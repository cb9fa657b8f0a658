------------------------------ MODULE RaceTrace ------------------------------
(* Runs of the real program at the same time, checked against the register    *)
(* RaceReg: val is what is stored (the settings) or installed (the            *)
(* application).  Every file operation of every run is followed by a look at  *)
(* it: a change belongs to the run that was going on.                         *)
EXTENDS Dialog, Json, IOUtils

U == INSTANCE Update

Traces == ndJsonDeserialize(IOEnv.TRACES)

\* may: what each run under way may put there; did: the runs that have taken effect
VARIABLES tid, i, bad, val, may, did

vars == <<tid, i, bad, val, may, did>>

Ev == Traces[tid].ev
Saves == Traces[tid].init.kind = "save"
Runs == 1..Traces[tid].init.n

Init == /\ tid \in 1..Len(Traces)
        /\ i = 1
        /\ bad = {}
        /\ val = IF Saves THEN Traces[tid].init.conf ELSE "old"
        /\ may = [p \in Runs |-> {}]
        /\ did = {}

If(c, s) == IF c THEN s ELSE {}
Mark(s) == bad' = bad \cup {[p |-> p, i |-> i] : p \in s}

Want(op) == IF ~Saves THEN U!Installable(op)
            ELSE IF op.via = "dialog" THEN {AfterDialog(val, op.ans)} ELSE {op.c}

Now(o) == IF Saves THEN o.conf ELSE o.app

Step ==
    LET op == Ev[i].op
        o == Ev[i].obs
    IN  CASE op.a = "Start" ->
               /\ Mark({})
               /\ may' = [may EXCEPT ![op.p] = Want(op)]
               /\ did' = IF val \in Want(op) THEN did \cup {op.p} ELSE did
               /\ UNCHANGED val
          [] op.a = "Changed" ->
               IF o.crash # "" THEN Mark({"C25"}) /\ UNCHANGED <<val, may, did>>
               ELSE /\ Mark(If(Now(o) \notin may[op.p] \cup {val}, {"C25"}) \cup If(~Saves /\ ~o.exec, {"C25"}))
                    /\ val' = Now(o)
                    /\ did' = did \cup {p \in Runs : Now(o) \in may[p]}
                    /\ UNCHANGED may
          [] op.a = "End" ->
               /\ Mark(If(o.crash # "", {"C25"})
                       \cup If(o.crash = "" /\ ~o.killed /\ Saves /\ (o.rc # 0 \/ op.p \notin did), {"C25"})
                       \cup If(o.crash = "" /\ ~o.killed /\ ~Saves /\ (IF o.rc = 0 THEN op.p \notin did ELSE o.rc # 1 \/ ~o.said), {"C25"}))
               /\ may' = [may EXCEPT ![op.p] = {}]
               /\ UNCHANGED <<val, did>>
          [] op.a = "Install" -> Mark({}) /\ val' = "old" /\ UNCHANGED <<may, did>>
          [] op.a = "Read" ->
               /\ Mark(If(o.crash # "" \/ (o.crash = "" /\ o.conf # val), {"C25"}))
               /\ UNCHANGED <<val, may, did>>
          [] op.a = "Reader" ->
               /\ Mark(If(o.crash # "" \/ (o.crash = "" /\ (o.dialog \/ o.rc # 1)), {"C25"}))
               /\ UNCHANGED <<val, may, did>>
          [] op.a = "Alone" ->
               /\ Mark(If(o.crash # "" \/ (o.crash = "" /\ (o.rc # 0 \/ o.app \notin U!Installable(op) \/ ~o.exec \/ o.cache)), {"C25"}))
               /\ UNCHANGED <<val, may, did>>

Next == i <= Len(Ev) /\ Step /\ i' = i + 1 /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

View == <<tid, i>>

Done == i > Len(Ev)
Report == Done /\ bad # {} => PrintT("BAD " \o ToJson([tid |-> tid, bad |-> bad]))
Ends == Done => PrintT("DONE " \o ToString(tid))
=============================================================================
