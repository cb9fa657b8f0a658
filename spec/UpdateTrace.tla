----------------------------- MODULE UpdateTrace -----------------------------
(* Updates of the real program, with faults and without, checked against      *)
(* Update: app is the content of the installed application.                   *)
EXTENDS Update, TLC, FiniteSets, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, bad, app

vars == <<tid, i, bad, app>>

Ev == Traces[tid].ev
Current == Traces[tid].init.current
Range(l) == {l[n] : n \in 1..Len(l)}

Init == /\ tid \in 1..Len(Traces)
        /\ i = 1
        /\ bad = {}
        /\ app = "old"

If(c, s) == IF c THEN s ELSE {}
Mark(s) == bad' = bad \cup {[p |-> p, i |-> i] : p \in s}

RECURSIVE TrimEnd(_)
TrimEnd(s) == IF Len(s) > 0 /\ s[Len(s)] \in Blank THEN TrimEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s
Yes(s) == TrimEnd(SkipBlank(s)) \in {<<"y">>, <<"Y">>}

Offers(a) == a.kind = "ok" /\ Newer(Current, a.tag)

Check(op, o) ==
    LET offered == Offers(op.first)
        yes     == Yes(op.ans)
        go      == offered /\ yes /\ Offers(op.second)
        may     == IF go THEN Installable(op) ELSE {}
        must    == go /\ ~o.hit /\ Sound(op)
        files   == Range(o.files)
    IN  \* whatever happened: an old or a verified application, that can be executed
        If(o.app \notin {app} \cup may,
           {"C11"} \cup If(~go, {"C13"}) \cup If(o.left, {"C12"}))
        \cup If(~o.exec, {"C11"})
        \* success means installed, and cleaned up
        \cup If(o.rc = 0 /\ o.app \notin may, {"C11"} \cup If(~go, {"C13"}))
        \cup If(o.rc = 0 /\ o.cache, {"C12"})
        \* a sound release is installed, whatever was left behind
        \cup If(must /\ (o.rc # 0 \/ o.app \notin may), {"C11"} \cup If(o.left, {"C12"}))
        \* nothing but the cache and the application is touched
        \cup If(files \cap {"other", "vault", "conf"} # {}, {"C12", "C20"})
        \* no consent, no newer release: nothing happens
        \cup If(~(offered /\ yes) /\ (o.dl > 0 \/ "cache" \in files), {"C13"})
        \cup If(~go /\ o.dl > 0, {"C13"})
        \cup If(~go /\ ~o.hit /\ o.rc # 1, {"C13"} \cup If(op.first.kind = "bad" \/ op.second.kind = "bad", {"C22"}))
        \cup If(~o.hit /\ offered # o.asked, {"C13", "C14"})
        \* a fault of the server is an error, not a crash
        \cup If(~o.hit /\ o.rc \notin {0, 1}, {"C11", "C22"})
        \cup If(~o.hit /\ o.rc = 1 /\ ~o.said, {"C22"})

Step ==
    LET op == Ev[i].op
        o == Ev[i].obs
    IN  CASE op.a = "Install" -> app' = "old" /\ Mark({})
          [] op.a = "Update" ->
               IF o.crash # "" THEN Mark({"C11", "C22"}) /\ UNCHANGED app
               ELSE Mark(Check(op, o)) /\ app' = o.app

Next == i <= Len(Ev) /\ Step /\ i' = i + 1 /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

View == <<tid, i>>

Done == i > Len(Ev)
Report == Done /\ bad # {} => PrintT("BAD " \o ToJson([tid |-> tid, bad |-> bad]))
Ends == Done => PrintT("DONE " \o ToString(tid))
=============================================================================
