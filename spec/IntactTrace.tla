----------------------------- MODULE IntactTrace -----------------------------
(* Runs of the real program on vaults whose files are damaged and mended.       *)
EXTENDS Intact, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, bad, hurt, t

vars == <<tid, i, bad, hurt, t>>

Ev == Traces[tid].ev
Gui == Traces[tid].init.cmd = "gui"

Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = {} /\ hurt = {} /\ t = Attempt({})

If(c, s) == IF c THEN s ELSE {}
Mark(s) == bad' = bad \cup {[p |-> p, i |-> i] : p \in s}

\* it says why it does not go on, and shows nothing
Refused(o) == /\ o.got = << >> /\ ~o.left
              /\ o.says
              /\ (o.at = "ended" /\ o.rc > 0) \/ (Gui /\ o.at = "error")
Opened(o) == o.got = o.want /\ IF Gui THEN o.at = "main" ELSE o.at = "ended" /\ o.rc = 0

Step ==
    LET op == Ev[i].op
        o == Ev[i].obs
        h == CASE op.a = "Hurt" -> hurt \cup {op.f} [] op.a = "Mend" -> hurt \ {op.f} [] OTHER -> hurt
        tt == CASE op.a \in {"Hurt", "Mend"} -> Seen(t, h)
                [] op.a = "Start" -> Attempt(h)
                [] op.a = "Lock" -> Again(t, h)
                [] OTHER -> t
        ok == CASE op.a \in {"Hurt", "Mend"} -> TRUE
                [] op.a \in {"Start", "Lock"} -> (o.at = "prompt" /\ o.got = << >>) \/ (Refused(o) /\ MayEnd(tt))
                [] op.a = "Enter" -> \E r \in Results(tt, op.right) : IF r = "open" THEN Opened(o) ELSE Refused(o)
                [] op.a = "Quit" -> o.at = "ended" /\ o.rc = 0
    IN  /\ hurt' = h
        /\ t' = tt
        /\ Mark(If(o.crash # "" \/ (o.crash = "" /\ ~ok), IF tt.any # {} THEN {"C28"} ELSE IF Traces[tid].init.odd > 0 THEN {"C29"} ELSE {"C28"}))

Next == i <= Len(Ev) /\ Step /\ i' = i + 1 /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

View == <<tid, i>>

Done == i > Len(Ev)
Report == Done /\ bad # {} => PrintT("BAD " \o ToJson([tid |-> tid, bad |-> bad]))
Ends == Done => PrintT("DONE " \o ToString(tid))
===============================================================================
