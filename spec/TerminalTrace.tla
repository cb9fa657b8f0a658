---------------------------- MODULE TerminalTrace ----------------------------
(* Runs of the real program on a terminal that goes on after them, checked      *)
(* against Terminal.  The state of the specification follows what is observed   *)
(* as far as it is allowed.                                                     *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

VARIABLES tid, i, bad, places, last

vars == <<tid, i, bad, places, last>>

T == INSTANCE Terminal WITH at <- "working", modes <- "theirs", screen <- "theirs"

Traces == ndJsonDeserialize(IOEnv.TRACES)

Head1 == Traces[tid].init
Ev == Traces[tid].ev

Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = {} /\ places = {} /\ last = "none"

If(c, s) == IF c THEN s ELSE {}
Mark(s) == bad' = bad \cup {[p |-> p, i |-> i] : p \in s}

\* the modes and the screen are as this place wants them
RightModes(o) ==
    CASE T!ModesAt(o.at) = "theirs" -> o.same
      [] T!ModesAt(o.at) = "silent" -> ~o.echo /\ o.canon /\ o.signals
      [] OTHER -> ~o.echo /\ ~o.canon
RightScreen(o) ==
    IF T!ScreenAt(o.at) = "ours" THEN o.alt
    ELSE ~o.alt /\ o.cursor /\ o.on = << >> /\ o.wiped = 0 /\ ~o.left

Step ==
    LET op == Ev[i].op
        o == Ev[i].obs
        run == Head1.run
        from == IF op.a = "Start" THEN {} ELSE places
        next == IF op.a = "Start" THEN T!Begin(run) ELSE UNION {T!After(run, p, op) : p \in places}
        got == {p \in next : p.at = o.at}
        cli == run.cmd \in {"list", "overview", "details"}
    IN  IF o.crash # ""
        THEN Mark({"C27"}) /\ UNCHANGED <<places, last>>
        ELSE /\ Mark(If(got = {}, {"C27"})
                     \cup If(o.at # "none" /\ ~RightModes(o), {"C27"})
                     \* what a command prints about items is its own business
                     \cup If(o.at # "none" /\ ~RightScreen(IF run.cmd = "gui" THEN o ELSE [o EXCEPT !.left = FALSE]), {"C27"})
                     \cup If(o.at = "prompt" /\ o.echo, {"C24"})
                     \cup If(o.pwseen, {"C24"})
                     \* the settings wait for the last answer
                     \cup If(o.saved /\ (\E p \in from : p.at = "question") /\ (op.a = "Interrupt" \/ o.at = "question"), {"C17", "C27"}))
             /\ places' = IF got = {} THEN next ELSE got
             /\ last' = op.a

Next == i <= Len(Ev) /\ Step /\ i' = i + 1 /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

View == <<tid, i>>

Done == i > Len(Ev)
Report == Done /\ bad # {} => PrintT("BAD " \o ToJson([tid |-> tid, bad |-> bad]))
Ends == Done => PrintT("DONE " \o ToString(tid))
=============================================================================
