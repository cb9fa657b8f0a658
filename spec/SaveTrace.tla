------------------------------ MODULE SaveTrace ------------------------------
(* Saves of the real program, interrupted and not, checked against the        *)
(* register Save: may is the set of settings the next run may find.           *)
EXTENDS Dialog, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, bad, conf, may, last   \* last: how the last save ended: "none", "ok", "failed", "hit" (interrupted); via

vars == <<tid, i, bad, conf, may, last>>

Ev == Traces[tid].ev

Init == /\ tid \in 1..Len(Traces)
        /\ i = 1
        /\ bad = {}
        /\ conf = NoSettings
        /\ may = {NoSettings}
        /\ last = [how |-> "none", via |-> "", ever |-> FALSE]

If(c, s) == IF c THEN s ELSE {}
Mark(s) == bad' = bad \cup {[p |-> p, i |-> i] : p \in s}

Want(op) == IF op.via = "dialog" THEN AfterDialog(conf, op.ans) ELSE op.c

Whose == If(last.ever, {"C18"}) \cup {"C16"} \cup If(last.via = "dialog", {"C17"})

Step ==
    LET op == Ev[i].op
        o == Ev[i].obs
    IN  CASE op.a = "Conf" ->
               /\ may' = {op.c}
               /\ last' = [last EXCEPT !.how = "none", !.via = ""]
               /\ Mark({})
               /\ UNCHANGED conf
          [] op.a = "Read" ->
               IF o.crash # ""
               THEN Mark(IF last.how = "hit" THEN {"C18"} ELSE Whose) /\ UNCHANGED <<conf, may, last>>
               ELSE /\ Mark(If(o.conf \notin may \/ ~o.extra,
                               CASE last.how = "hit" -> {"C18"}
                                 [] last.how = "hitok" -> IF o.conf = conf THEN {"C16"} ELSE {"C18", "C16"}
                                 [] OTHER -> Whose))
                    /\ conf' = o.conf
                    /\ may' = {o.conf}
                    /\ UNCHANGED last
          [] op.a = "Works" ->
               /\ Mark(IF o.crash # "" THEN {"C18", "C23"}
                       ELSE If(o.dialog # ~conf.present \/ o.rc # 1, If(last.ever, {"C18"}) \cup {"C23"}))
               /\ IF o.dialog
                  THEN may' = {AfterDialog(conf, op.ans)} /\ last' = [last EXCEPT !.how = "ok", !.via = "dialog"]
                  ELSE UNCHANGED <<may, last>>
               /\ UNCHANGED conf
          [] op.a = "Save" ->
               IF o.crash # ""
               THEN Mark(IF o.hit THEN {} ELSE Whose) /\ may' = {conf, Want(op)} /\ last' = [how |-> "hit", via |-> op.via, ever |-> TRUE] /\ UNCHANGED conf
               ELSE /\ Mark(If(~o.hit /\ ~o.done, Whose))
                    /\ may' = IF o.done THEN {Want(op)} ELSE {conf, Want(op)}
                    /\ last' = [how |-> IF o.hit THEN (IF o.done THEN "hitok" ELSE "hit") ELSE "ok", via |-> op.via, ever |-> last.ever \/ o.hit]
                    /\ UNCHANGED conf

Next == i <= Len(Ev) /\ Step /\ i' = i + 1 /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

View == <<tid, i>>

Done == i > Len(Ev)
Report == Done /\ bad # {} => PrintT("BAD " \o ToJson([tid |-> tid, bad |-> bad]))
Ends == Done => PrintT("DONE " \o ToString(tid))
=============================================================================
