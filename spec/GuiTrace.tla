------------------------------ MODULE GuiTrace ------------------------------
(* Key sequences typed into the real terminal interface, checked against Gui: *)
(* after every key the screen must be what Gui says.  A mismatch adds the     *)
(* properties it breaks to bad.                                               *)
EXTENDS Gui, Version, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

\* ph: an operation is carried out ("act"), then the screen compared ("look")
\* was: the window before; seen: unlocked before, vault changed since the start
VARIABLES tid, i, bad, seen, ph, was

vars == <<gvars, tid, i, bad, seen, ph, was>>

Range(l) == {l[n] : n \in 1..Len(l)}

ToItem(j) == [j EXCEPT !.tamper = Range(j.tamper)]
ToVault(j) == [pw |-> j.pw, prof |-> j.prof, items |-> {ToItem(x) : x \in Range(j.items)}]

Tr == Traces[tid]
Ev == Tr.ev
Srv == Tr.init.srv

Init == /\ tid \in 1..Len(Traces)
        /\ i = 1
        /\ bad = {}
        /\ ph = "act"
        /\ was = "none"
        /\ seen = [opened |-> FALSE, changed |-> FALSE]
        /\ GInit(ToVault(Traces[tid].init.vault), [w |-> Traces[tid].init.w, h |-> Traces[tid].init.h, fits |-> TRUE])

-----------------------------------------------------------------------------
Has(s, p) == \/ Len(p) = 0
             \/ \E k \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, k, k + Len(p) - 1) = p
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

If(c, s) == IF c THEN s ELSE {}

\* everything the session may put on the screen apart from a revealed item
Public == {LinesOf(ItemText(x, TRUE)) : x \in sess}

\* texts that may be seen while the state is the new one
MaySee(t) ==
    \/ win \in {"items", "details"} /\ \E n \in 1..Len(sel) : Has(sel[n].title, t) \/ Has(sel[n].url, t)
    \/ win = "details" /\ Has(ItemText(Highlighted, FALSE), t)

\* a row of the pane that shows (part of) a value instead of its mask
Uncovered(row) ==
    /\ row # ""
    /\ ~\E l \in Public : \E n \in 1..Len(l) : Part(l[n], 0, dim.w - 3 - Right) = row
    /\ \E it \in sess :
          \/ \E s \in 1..Len(it.sections) : \E f \in 1..Len(it.sections[s].fields) :
                LET p == it.sections[s].fields[f].n \o ": " IN Starts(row, p) /\ row # p
          \/ LET l == LinesOf(it.notes) IN \E n \in 1..Len(l) : Len(l[n]) > 2 /\ Starts(l[n], row)

HeaderOk(h) ==
    LET fits(t) == Has(h, t) \/ dim.w < 110       \* cut off in narrow terminals
    IN  CASE Srv.kind = "ok" /\ Newer(Tr.init.current, Srv.tag) -> Has(h, "(new version") /\ fits("v" \o Join(Srv.tag))
          [] Srv.kind = "ok" -> Has(h, "up to date")
          [] Srv.kind = "bad" -> Has(h, "failed")
          [] OTHER -> Has(h, "(")

\* what went wrong after an operation, in the state reached
Again == If(seen.opened, {"C05"}) \cup If(seen.changed, {"C06"})

\* the list and the pane beside it are one picture
SameWin(o) == o.win = (IF win = "details" THEN "items" ELSE win)

Submits(op) == op.a = "Paste" \/ (op.a = "Key" /\ op.k = "Enter")

CheckWin(op, o) ==
    IF SameWin(o) THEN {}
    ELSE CASE was = "prompt" /\ Submits(op) -> {"C01"} \cup If(win = "main", Again)
           [] op.a = "Key" /\ op.k = "Lock" -> {"C05", "C09", "C10"}
           [] OTHER -> {"C10"}

\* the number of characters of a UTF-8 text in hexadecimal
Characters(x) == Cardinality({k \in 1..(Len(x) \div 2) : Chr(x, 2 * k - 1) \notin {"8", "9", "a", "b"}})

CheckScreen(op, o) ==
    CASE win = "prompt" ->
           LET n == Characters(typed)
               \* a long text is scrolled in the prompt
           IN  If(o.other # "" \/ (IF n < 59 THEN o.stars # n ELSE o.stars \notin 1..n), {"C24"})
           \cup If(o.around # "", {"C09"} \cup If(seen.opened, {"C05"}))
      [] win = "error" ->
           If(o.err # "invalid password", {"C01"}) \cup If(o.around # "", {"C09", "C01"})
      [] win = "main" ->
           If(o.rows # ShownRows \/ o.hl # ShownMark, {"C10"} \cup If(was = "prompt", {"C02"} \cup Again))
      [] win = "items" ->
           If(o.rows # ShownRows \/ o.hl # ShownMark, {"C10"})
           \cup (IF o.details = ShownPane THEN {} ELSE {"C10"} \cup If(\E n \in 1..Len(o.details) : Uncovered(o.details[n]), {"C09"}))
      [] win = "details" ->
           If(o.rows # ShownRows \/ o.hl # ShownMark \/ o.details # ShownPane, {"C10"})
      [] OTHER -> {}

CheckSeen(op, o) ==
    If(\E t \in Range(o.seen) : ~MaySee(t), {"C09"} \cup If(win \in {"prompt", "error"}, If(seen.opened, {"C05"})))
    \cup If(o.pwseen, {"C24"})

CheckFiles(o) ==
    LET F == Range(o.files) IN If(F \ {"last", "confdir"} # {} \/ o.leak, {"C20"}) \cup If("last" \in F /\ (i # 1 \/ Srv.kind = "bad"), {"C15"})

CheckAlive(op, o) ==
    IF win = "gone" THEN If(o.alive \/ o.rc # 0, {"C10"}) ELSE If(~o.alive, {"C10"})

Crashed(op) == {"C10"} \cup If(op.a = "Start", {"C22"}) \cup If(op.a = "Key" /\ op.k = "Lock", {"C05"})
               \cup If(was = "prompt" /\ Submits(op), {"C01"} \cup Again)

Check(op, o) ==
    IF ~dim.fits THEN CheckAlive(op, o) \cup If(win # "gone", CheckSeen(op, o)) \cup CheckFiles(o)
    ELSE IF win # "gone" /\ o.win = "none" THEN CheckAlive(op, o) \cup If(o.alive, {"C10"})
    ELSE CheckAlive(op, o)
         \cup (IF win = "gone" THEN {} ELSE CheckWin(op, o) \cup (IF SameWin(o) THEN CheckScreen(op, o) ELSE {})
                                             \cup CheckSeen(op, o)
                                             \cup If(~HeaderOk(o.header), {"C15", "C22"}))
         \cup CheckFiles(o)

Mark(s) == bad' = bad \cup {[p |-> p, i |-> i] : p \in s}

-----------------------------------------------------------------------------
Act ==
    LET op == Ev[i].op
    IN  /\ ph = "act"
        /\ CASE op.a = "Start" -> UNCHANGED gvars
             [] op.a = "Type" -> Type(op.pw)
             [] op.a = "Paste" -> Paste(op.pw)
             [] op.a = "Key" -> Key(op.k)
             [] op.a = "Resize" -> Resize([w |-> op.w, h |-> op.h, fits |-> TRUE], op.back)
             [] op.a = "Disk" -> Change(ToVault(op.to))
        /\ was' = win
        /\ ph' = "look"
        /\ UNCHANGED <<tid, i, bad, seen>>

Look ==
    LET op == Ev[i].op
        o == Ev[i].obs
    IN  /\ ph = "look"
        /\ Mark(IF o.crash # "" THEN Crashed(op) ELSE IF op.a = "Disk" THEN {} ELSE Check(op, o))
        /\ seen' = [opened |-> seen.opened \/ sess # {}, changed |-> seen.changed \/ op.a = "Disk"]
        /\ ph' = "act"
        /\ i' = i + 1
        /\ UNCHANGED <<gvars, tid, was>>

Next == i <= Len(Ev) /\ (Act \/ Look)

Spec == Init /\ [][Next]_vars

View == <<tid, i, ph>>

Done == i > Len(Ev)
Report == Done /\ bad # {} => PrintT("BAD " \o ToJson([tid |-> tid, bad |-> bad]))
Ends == Done => PrintT("DONE " \o ToString(tid))
=============================================================================
