------------------------------ MODULE AppTrace ------------------------------
(* Runs of the real application, checked against App: what every command      *)
(* printed, asked for, changed on disk and how it ended must be what Plan     *)
(* says.  A mismatch adds the properties it breaks to bad.                    *)
EXTENDS App, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

Cur == Traces[1].init.current

VARIABLES tid, i, bad, dlg

vars == <<avars, tid, i, bad, dlg>>

Range(l) == {l[n] : n \in 1..Len(l)}

ToItem(j) == [j EXCEPT !.tamper = Range(j.tamper)]
ToVault(j) == [pw |-> j.pw, prof |-> j.prof, items |-> {ToItem(x) : x \in Range(j.items)}]

Ev == Traces[tid].ev
At == LET l == Traces[tid].init.places
      IN  [p \in {l[n].p : n \in 1..Len(l)} |-> LET k == CHOOSE n \in 1..Len(l) : l[n].p = p IN l[k].v]

Init == /\ tid \in 1..Len(Traces)
        /\ i = 1
        /\ bad = {}
        /\ dlg = FALSE
        /\ LET d == Traces[tid].init.disk IN AInit([v \in DOMAIN d |-> ToVault(d[v])])

-----------------------------------------------------------------------------
Has(s, p) == \/ Len(p) = 0
             \/ \E k \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, k, k + Len(p) - 1) = p

Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

Notice(l) == Starts(l, "New version of 1pass is available")

CountNotices(ls) == Cardinality({n \in 1..Len(ls) : Notice(ls[n])})

Rest(ls) == SelectSeq(ls, LAMBDA l : l # "" /\ ~Notice(l))

If(c, s) == IF c THEN s ELSE {}

-----------------------------------------------------------------------------
(* The table of the list command *)

LowerChars(s) == [n \in 1..Len(s) |-> DownChr(s[n])]

CatGiven(op) == Len(op.cat) > 0
CatFound(op) == {c \in KnownCats : LowerStr(CatName(c)) = Join(LowerChars(Trim(op.cat)))}

RowOf(it) == [uid |-> it.uid, cat |-> CatName(it.cat), title |-> it.title]

CheckRows(op, S, rows) ==
    LET c == IF CatGiven(op) THEN CHOOSE x \in CatFound(op) : TRUE ELSE ""
        X == MatchingIn(S, c, op.qc, op.t)
        R == [n \in 1..Len(rows) |-> [uid |-> rows[n].a, cat |-> rows[n].b, title |-> rows[n].c]]
        It(n) == CHOOSE x \in X : x.uid = rows[n].a
    IN  /\ Len(rows) = Cardinality(X)
        /\ Range(R) = {RowOf(x) : x \in X}
        /\ \A n \in 1..Len(rows) : rows[n].n = ToString(n)
        /\ \A n \in 1..(Len(rows) - 1) : ~ListedBefore(It(n + 1), It(n))

CheckCategories(rows) ==
    /\ Len(rows) = Len(Categories)
    /\ \A n \in 1..Len(rows) : rows[n].n = ToString(n) /\ rows[n].a = Categories[n].name

\* rows of the main window of the terminal interface
MainRows(S) ==
    LET cs == SelectSeq([n \in 1..Len(Categories) |-> Categories[n].code], LAMBDA c : CountIn(S, c, FALSE) > 0)
        L(t, n) == t \o " (" \o ToString(n) \o ")"
    IN  (IF CountIn(S, "", FALSE) = 0 THEN << >>
         ELSE <<L("All", CountIn(S, "", FALSE))>> \o [n \in 1..Len(cs) |-> L(CatName(cs[n]), CountIn(S, cs[n], FALSE))])
        \o (IF CountIn(S, "", TRUE) = 0 THEN << >> ELSE <<L("Trashed", CountIn(S, "", TRUE))>>)

-----------------------------------------------------------------------------
(* What a command showed *)

CheckItem(op, o, S) ==
    LET X == ItemIn(S, op.uid, op.t)
        masked == op.cmd = "overview"
    IN  IF X = {} THEN o.post = "Item with UID " \o op.uid \o " do not exist\n"
        ELSE LET it == CHOOSE x \in X : TRUE
             IN  o.post = "\n" \o ItemText(it, masked) \o (IF it.notes = "" THEN "" ELSE "\n")

CheckOpened(op, o, S) ==
    CASE op.cmd = "list" ->
           IF CatGiven(op) /\ CatFound(op) = {}
           THEN If(o.rc # 1 \/ Len(o.rows) > 0, {"C07"})
           ELSE If(o.rc # 0 \/ ~CheckRows(op, S, o.rows), {"C07", "C02"})
      [] op.cmd = "overview" -> If(o.rc # 0 \/ ~CheckItem(op, o, S), {"C08"})
      [] op.cmd = "details" -> If(o.rc # 0 \/ ~CheckItem(op, o, S), {"C08", "C02", "C03"})
      [] op.cmd = "gui" -> If(o.rc # 0 \/ ~o.gui.on \/ o.gui.win # "main" \/ o.gui.rows # MainRows(S), {"C10", "C02"})

Refusal == "invalid password"

CheckPrompt(op, o, p) ==
    LET accepted == IF op.cmd = "gui" THEN o.gui.on /\ o.gui.win # "error" ELSE o.post # Refusal \o "\n"
    IN  If(accepted # p.opens, {"C01", "C21"})
        \cup If(accepted /\ p.opens, CheckOpened(op, o, p.shows))
        \cup If(~p.opens /\ op.cmd # "gui", If(o.rc # 1 \/ o.post # Refusal \o "\n" \/ Len(o.rows) > 0, {"C01"}))
        \cup If(~p.opens /\ op.cmd = "gui",
                If(~o.gui.on \/ o.rc # 0 \/ o.gui.win # "error" \/ o.gui.err # Refusal \/ o.gui.around # "", {"C01"}))
        \cup If(op.cmd = "gui" /\ (~o.gui.on \/ o.gui.stars # o.gui.nstars \/ o.gui.other # ""), {"C24"})

\* the part of the output before the password prompt
CheckBefore(op, o, p) ==
    IF op.cmd = "gui" \/ p.dialog THEN {}
    ELSE If(Rest(o.pre) # <<"Password:">>, {"C22"})

Header(o) == IF o.gui.on THEN o.gui.header ELSE ""
CheckHeader(op, o, p) ==
    IF op.cmd # "gui" \/ ~p.prompts \/ ~o.gui.on THEN {}
    ELSE CASE Offered -> If(~Has(Header(o), "v" \o Join(srv.tag)), {"C15", "C14"})
           [] srv.kind = "ok" /\ ~Offered -> If(~Has(Header(o), "up to date"), {"C15", "C14", "C22"})
           [] srv.kind = "bad" -> If(~Has(Header(o), "failed"), {"C15", "C22"})
           [] OTHER -> If(~Has(Header(o), "("), {"C15", "C22"})

CheckVaultCmd(op, o, p) ==
    (IF o.prompted # p.prompts THEN {"C19", "C21"}
     ELSE IF p.prompts THEN CheckPrompt(op, o, p) \cup CheckBefore(op, o, p) \cup CheckHeader(op, o, p)
     ELSE If(o.rc # 1 \/ ~Has(o.pretext, p.path), {"C19", "C21"}))

CheckDialog(op, o, p) ==
    LET seen == Has(o.pretext, "Configuring 1pass")
    IN  IF seen # p.dialog THEN (IF op.cmd = "configure" THEN {"C17"} ELSE {"C23"})
        ELSE IF ~p.dialog THEN {}
        ELSE If(~Has(o.pretext, "(" \o ToString(conf.timeout) \o ")") \/ ~Has(o.pretext, "(" \o ToString(conf.period) \o ")")
                \/ (SaysYes(Answer(op.ans, 1)) /\ ~Has(o.pretext, "(" \o conf.vault \o ")")), {"C17", "C16"})

CheckUpdate(op, o, p) ==
    LET asked == Has(o.pretext, "Do you want to update")
    IN  IF srv.kind = "odd" THEN If(o.rc # 1 \/ o.app # "old", {"C22", "C13"})
        ELSE IF ~Offered THEN If(o.rc # 1 \/ o.dl > 0 \/ o.app # "old" \/ asked \/ o.cache,
                                 {"C13"} \cup (IF srv.kind = "ok" THEN {"C14"} ELSE {"C22"}))
        ELSE If(~asked, {"C13", "C14"})
             \cup (IF ~p.installs THEN If(o.rc # 1 \/ o.dl > 0 \/ o.app # "old" \/ o.cache, {"C13"})
                   ELSE If(o.rc # 0 \/ o.app # "new", {"C11", "C13"}) \cup If(o.cache, {"C12"}))

CheckOther(op, o) ==
    CASE op.cmd = "categories" -> If(o.rc # 0 \/ ~CheckCategories(o.rows), {"C07"})
      [] op.cmd = "configure" -> If(o.rc # 0, {"C17"})
      [] op.cmd = "version" -> If(o.rc # 0 \/ ~Has(o.pretext, Join(Current)) \/ o.req > 0, {"C15"})
      [] OTHER -> {}

-----------------------------------------------------------------------------
(* What a command did *)

Asked(o) == o.req > 0

CheckSchedule(op, o, p) ==
    If(o.reqseen /\ Asked(o) \notin p.asks, {"C15"})
    \cup If(o.last \notin p.lasts, {"C15"})
    \cup If(srv.kind # "odd" /\ op.cmd \notin {"update", "gui"} /\ CountNotices(o.pre) \notin p.notices, {"C15", "C14"})
    \cup If(srv.kind = "ok" /\ op.cmd # "update" /\ \E n \in 1..Len(o.pre) : Notice(o.pre[n]) /\ ~Has(o.pre[n], Join(srv.tag)), {"C15"})

Allowed(p) == If(p.dialog, {"conf", "confdir"}) \cup If(TRUE \in p.asks, {"last", "confdir"}) \cup If(p.installs, {"app"})
              \cup If(p.cmd = "update" /\ p.asksPerm /\ p.installs, {"cache"})

CheckFiles(op, o, p) ==
    LET F == Range(o.files) \ Allowed(p)
    IN  If(F \cap {"vault", "other"} # {} \/ o.leak, {"C20"})
        \cup If("conf" \in F, {"C21", "C23", "C16", "C20"})
        \cup If("confdir" \in F, {"C20"})
        \cup If("last" \in F, {"C15", "C20"})
        \cup If(F \cap {"app", "cache"} # {}, {"C13", "C20"})
        \cup If(op.cmd # "update" /\ (o.dl > 0 \/ o.app # "old"), {"C13"})

CheckTerminal(o) == If(o.echo \/ o.pwshown, {"C24"})

CrashTags(op, p) ==
    (CASE op.cmd = "list" -> {"C07", "C02"}
       [] op.cmd = "overview" -> {"C08"}
       [] op.cmd = "details" -> {"C08", "C03"}
       [] op.cmd = "gui" -> {"C10"}
       [] op.cmd = "configure" -> {"C17"}
       [] op.cmd = "update" -> {"C11", "C13"}
       [] OTHER -> {"C07"})
    \cup If(TRUE \in p.asks, {"C22", "C15"})
    \cup If(p.refused, {"C19", "C21"}) \cup If(p.dialog, {"C23", "C17"})
    \cup If(p.prompts, {"C01", "C19", "C21"})

CheckRun(op, o, p) ==
    IF o.stuck THEN CrashTags(op, p) \cup CheckTerminal(o) \cup If(Has(o.pretext, "Configuring 1pass") # p.dialog, {"C23"})
    ELSE LET base == (IF op.cmd \in VaultCmds THEN CheckVaultCmd(op, o, p) ELSE IF op.cmd = "update" THEN CheckUpdate(op, o, p) ELSE CheckOther(op, o))
                     \cup CheckDialog(op, o, p)
         IN  base \cup CheckSchedule(op, o, p) \cup CheckFiles(op, o, p) \cup CheckTerminal(o)
             \cup If(base # {} /\ TRUE \in p.asks /\ srv.kind # "ok" /\ op.cmd # "update", {"C22"})

Mark(s) == bad' = bad \cup {[p |-> p, i |-> i] : p \in s}

-----------------------------------------------------------------------------
Step ==
    LET e == Ev[i]
        op == e.op
        o == e.obs
    IN  CASE op.a = "Run" ->
               LET y == op.cmd = "update" /\ SaysYes(Trim(op.consent))
                   p == Plan(op.cmd, op.vflag, At, op.ans, op.pw, y)
               IN  IF o.crash # ""
                   THEN Mark(CrashTags(op, p)) /\ UNCHANGED <<avars, dlg>>
                   ELSE /\ Mark(CheckRun(op, o, p))
                        /\ ret' = p
                        /\ conf' = p.conf
                        /\ last' = o.last
                        /\ app' = IF p.installs THEN "new" ELSE app
                        /\ dlg' = (dlg \/ p.dialog)
                        /\ UNCHANGED <<srv, disk>>
          [] op.a = "Cut" ->
               LET p == Plan(op.cmd, op.vflag, At, op.ans, op.pw, FALSE)
                   F == Range(o.files) \ (If(op.where = "prompt", Allowed(p)) \cup If(p.early, {"last", "confdir"}))
                   L == IF op.where = "dialog" THEN p.mids ELSE p.lasts
               IN  IF o.crash # ""
                   THEN Mark(CrashTags(op, p)) /\ UNCHANGED <<avars, dlg>>
                   ELSE /\ Mark(If(~o.cut /\ op.where \in CutAt(p), CrashTags(op, p))
                                \cup If(F # {} \/ o.leak, {"C20"}) \cup If("conf" \in F, {"C16", "C17", "C21", "C23"})
                                \cup If("last" \in F, {"C15"}) \cup If(o.last \notin L, {"C15"}) \cup If(F \cap {"app", "cache"} # {} \/ o.dl > 0 \/ o.app # "old", {"C13"})
                                \cup If(o.pwshown, {"C24"}))
                        /\ ret' = [cmd |-> "none"]
                        /\ conf' = IF op.where = "dialog" THEN conf ELSE p.conf
                        /\ last' = o.last
                        /\ dlg' = (dlg \/ p.dialog)
                        /\ UNCHANGED <<srv, disk, app>>
          [] op.a = "Read" ->
               /\ IF o.crash # "" THEN Mark({"C16", "C17", "C18"}) /\ UNCHANGED conf
                  ELSE /\ Mark(If(o.conf # conf \/ ~o.extra, IF dlg THEN {"C16", "C17", "C23"} ELSE {"C16", "C21", "C23"}))
                       /\ conf' = o.conf
               /\ ret' = [cmd |-> "none"]
               /\ dlg' = FALSE
               /\ UNCHANGED <<last, srv, disk, app>>
          [] op.a = "Conf" -> EditConf(op.c) /\ Mark({}) /\ dlg' = FALSE
          [] op.a = "Last" -> SetLast(op.l) /\ Mark({}) /\ UNCHANGED dlg
          [] op.a = "Server" -> SetServer(op.s) /\ Mark({}) /\ UNCHANGED dlg
          [] op.a = "Reinstall" -> app' = "old" /\ Mark({}) /\ ret' = [cmd |-> "none"] /\ UNCHANGED <<conf, last, srv, disk, dlg>>

Next == /\ i <= Len(Ev)
        /\ Step
        /\ i' = i + 1
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

View == <<tid, i>>

Done == i > Len(Ev)
Report == Done /\ bad # {} => PrintT("BAD " \o ToJson([tid |-> tid, bad |-> bad]))
Ends == Done => PrintT("DONE " \o ToString(tid))
=============================================================================
