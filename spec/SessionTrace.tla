----------------------------- MODULE SessionTrace -----------------------------
(* Traces recorded from the implementation, checked against Session: every    *)
(* recorded operation must be a step of the specification with the recorded   *)
(* result.  A mismatch adds the properties it breaks to bad.                  *)
EXTENDS Session, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, bad,
          others,        \* another vault was validated earlier in this trace
          locks,         \* the session was locked earlier in this trace
          changed,       \* a vault changed on disk earlier in this trace
          refused        \* an attempt was refused after all was well so far

vars == <<svars, tid, i, bad, others, locks, changed, refused>>

Range(l) == {l[n] : n \in 1..Len(l)}

ToItem(j) == [j EXCEPT !.tamper = Range(j.tamper)]
ToVault(j) == [pw |-> j.pw, prof |-> j.prof, items |-> {ToItem(x) : x \in Range(j.items)}]

Ev == Traces[tid].ev

Init == /\ tid \in 1..Len(Traces)
        /\ i = 1
        /\ bad = {}
        /\ others = FALSE /\ locks = FALSE /\ changed = FALSE /\ refused = FALSE
        /\ LET d == Traces[tid].init.disk IN SInit([v \in DOMAIN d |-> ToVault(d[v])])

-----------------------------------------------------------------------------
(* Properties broken by wrong contents of an open session *)

Altered == \E it \in disk[loaded.v].items : it.tamper # {}

Tags(base) == base
              \cup {"C06"}
              \cup (IF refused THEN {"C01"} ELSE {})
              \cup (IF locks THEN {"C05"} ELSE {})
              \cup (IF loaded.v # "" /\ Altered THEN {"C04"} ELSE {})

\* an item of the session and its observed counterpart
SameBase(it, o) == /\ o.uid = it.uid /\ o.cat = it.cat /\ o.trashed = it.trashed
                   /\ o.created = it.created.raw /\ o.updated = it.updated.raw
                   /\ o.title = it.title /\ o.url = it.url /\ o.notes = it.notes

CheckGet(op, o) ==
    LET X == ItemOf(op.uid, op.t)
    IN  IF ~open THEN (IF o.found THEN {"C05", "C01"} ELSE {})
        ELSE IF X = {} THEN (IF o.found THEN Tags({"C02", "C07"}) ELSE {})
        ELSE IF ~o.found THEN Tags({"C02", "C07"})
        ELSE LET it == CHOOSE x \in X : TRUE
             IN  (IF SameBase(it, o) THEN {} ELSE Tags({"C02"}))
                 \cup (IF o.sections = it.sections THEN {} ELSE Tags({"C03"}))

Simple(it) == [uid |-> it.uid, cat |-> it.cat, trashed |-> it.trashed, title |-> it.title]

InOrder(l) ==
    LET It(n) == CHOOSE x \in shown : x.uid = l[n].uid
    IN  \A n \in 1..(Len(l) - 1) : ~ListedBefore(It(n + 1), It(n))

CheckList(op, l) ==
    LET X == Matching(op.c, op.qc, op.t)
        S == {Simple(x) : x \in X}
    IN  IF ~open THEN (IF Len(l) > 0 THEN {"C05", "C01"} ELSE {})
        ELSE IF Range(l) # S \/ Len(l) # Cardinality(X)
             THEN Tags(IF op.qc = << >> /\ op.c = "" THEN {"C02", "C07"} ELSE {"C07"})
        ELSE IF ~InOrder(l) THEN {"C07"} ELSE {}

CheckCounts(op, m) ==
    IF \A c \in KnownCats \cup {""} : m["c" \o c] = CountOf(c, op.t) THEN {}
    ELSE IF ~open THEN {"C05"} ELSE Tags({"C02", "C07"})

CheckState(u) == IF u = open THEN {} ELSE IF open THEN {"C01", "C06"} ELSE {"C05", "C01"}

CrashTags(op) ==
    CASE op.a = "Unlock" -> {"C01", "C02", "C06"} \cup (IF Altered \/ loaded.prof # "good" THEN {"C04"} ELSE {}) \cup (IF Altered THEN {} ELSE {"C03"})
      [] op.a = "Validate" -> {"C06", "C01"}
      [] op.a = "Lock" -> {"C05"}
      [] OTHER -> {"C07", "C05", "C02"}

CheckUnlock(o, ok) ==
    LET accepted == o.err = ""
    IN  (IF accepted = ok THEN {}
         ELSE {"C01"} \cup (IF loaded.prof # "good" THEN {"C04"} ELSE {})
                      \cup (IF others \/ changed THEN {"C06"} ELSE {})
                      \cup (IF locks THEN {"C05"} ELSE {}))
        \cup (IF ~accepted /\ o.err # "invalid password" THEN {"C01"} ELSE {})
        \cup (IF o.same THEN {} ELSE {"C20"})

Mark(s) == bad' = bad \cup {[p |-> p, i |-> i] : p \in s}

-----------------------------------------------------------------------------
Step ==
    LET e == Ev[i]
        op == e.op
        o == e.obs
    IN  IF o.crash # ""
        THEN /\ Mark(CrashTags(op))
             /\ UNCHANGED <<svars, others, locks, changed>>
        ELSE CASE op.a = "Validate" ->
                    /\ Validate(op.v)
                    /\ others' = (others \/ (loaded.v # "" /\ loaded.v # op.v))
                    /\ Mark((IF o.err = "" THEN {} ELSE {"C19", "C06", "C01"}) \cup (IF o.same THEN {} ELSE {"C20"}))
                    /\ UNCHANGED <<locks, changed>>
               [] op.a = "Unlock" ->
                    /\ Unlock(op.v, op.pw)
                    /\ Mark(CheckUnlock(o, ret'.ok) \cup (IF o.unlocked = open' THEN {} ELSE {"C01", "C05"}))
                    /\ refused' = (~ret'.ok /\ (refused \/ bad = {}))
                    /\ UNCHANGED <<others, locks, changed>>
               [] op.a = "Lock" ->
                    /\ Lock
                    /\ locks' = TRUE
                    /\ Mark(IF o.unlocked THEN {"C05"} ELSE {})
                    /\ UNCHANGED <<others, changed>>
               [] op.a = "Disk" ->
                    /\ Disk(op.v, ToVault(op.to))
                    /\ changed' = TRUE
                    /\ Mark({})
                    /\ UNCHANGED <<others, locks>>
               [] op.a = "State" ->
                    Query([op |-> "State"]) /\ Mark(CheckState(o.unlocked)) /\ UNCHANGED <<others, locks, changed>>
               [] op.a = "Counts" ->
                    Query([op |-> "Counts"]) /\ Mark(CheckCounts(op, o.counts)) /\ UNCHANGED <<others, locks, changed>>
               [] op.a = "List" ->
                    Query([op |-> "List"]) /\ Mark(CheckList(op, o.list)) /\ UNCHANGED <<others, locks, changed>>
               [] op.a = "Get" ->
                    Query([op |-> "Get"]) /\ Mark(CheckGet(op, o.item)) /\ UNCHANGED <<others, locks, changed>>

\* after a wrong answer about acceptance the rest of the trace says nothing more
Diverged == \E b \in bad : b.p \in {"C01"} /\ Ev[b.i].op.a \in {"Unlock", "Validate"}

Next == \/ /\ i <= Len(Ev)
           /\ ~Diverged
           /\ Step
           /\ (Ev[i].op.a # "Unlock" \/ Ev[i].obs.crash # "" => UNCHANGED refused)
           /\ i' = i + 1
           /\ UNCHANGED tid
        \/ /\ i <= Len(Ev)
           /\ Diverged
           /\ i' = Len(Ev) + 1
           /\ UNCHANGED <<svars, tid, bad, others, locks, changed, refused>>

Spec == Init /\ [][Next]_vars

\* fingerprints need only the position: the rest is determined by it
View == <<tid, i>>

Done == i > Len(Ev)
Report == Done /\ bad # {} => PrintT("BAD " \o ToJson([tid |-> tid, bad |-> bad]))
Ends == Done => PrintT("DONE " \o ToString(tid))

Broken(p) == \E b \in bad : b.p = p
=============================================================================
