-------------------------------- MODULE AppMC --------------------------------
(* The application with two vaults and few settings: exhaustive check of the  *)
(* properties, and source of the histories replayed into the real program.    *)
EXTENDS App, Json, FiniteSets

CONSTANTS MaxLen, Emit, CmdSet, Flags, Pws, Answered, CutSet    \* Answered: kinds of answers of the update server
CONSTANT Weigh      \* TRUE: choose the kind of step first (for random walks)

VARIABLES hist, kind

Cur == <<"1">>

vars == <<avars, hist, kind>>

D(x) == [form |-> <<[name |-> "n", value |-> x]>>, sections |-> << >>, notes |-> ""]
St == [raw |-> "0", day |-> 0, sec |-> 0]
Thing(v) == [uid |-> v, cat |-> "001", trashed |-> FALSE, created |-> St, updated |-> St,
             title |-> v, titlec |-> <<97>>, url |-> "", details |-> D(v), tamper |-> {}]
Disk0 == [v \in {"v1", "v2"} |-> [pw |-> v, prof |-> "good", items |-> {Thing(v)}]]
At == [v \in {"v1", "v2"} |-> v]

\* answers: to the vault question and path, notifications, timeout, period
Keep == << >>
AnsVault == {<<Keep>>, <<<<"y">>, <<"v", "1">>>>, <<<<"y">>, <<"b">>>>}
AnsRest  == {<<Keep, Keep, Keep>>, <<<<"n">>, <<"5">>, <<"0">>>>, <<<<"y">>, <<"9", "9">>, <<"7">>>>}
Answers == {x \o y : x \in AnsVault, y \in AnsRest}

AnsKind(x) == [set |-> SaysYes(Answer(x, 1)),
               vault |-> IF SaysYes(Answer(x, 1)) THEN Join(Answer(x, 2)) ELSE "",
               notify |-> LET n == Answer(x, IF SaysYes(Answer(x, 1)) THEN 3 ELSE 2)
                          IN IF SaysYes(n) THEN "y" ELSE IF SaysNo(n) THEN "n" ELSE "keep",
               period |-> LET p == Number(Answer(x, Len(x)), 0, 365) IN IF p = 0 THEN "0" ELSE IF p = -1 THEN "keep" ELSE "n"]

Confs == {NoSettings,
          [NoSettings EXCEPT !.present = TRUE, !.vault = "v1"],
          [NoSettings EXCEPT !.present = TRUE, !.vault = "v2", !.period = 0],
          [NoSettings EXCEPT !.present = TRUE, !.vault = "v2", !.notify = FALSE],
          [NoSettings EXCEPT !.present = TRUE, !.vault = "b", !.period = 7],
          [NoSettings EXCEPT !.present = TRUE]}
Lst(k, d) == [kind |-> k, days |-> d, fresh |-> FALSE]
Lasts == {Lst("none", 0), Lst("bad", 0), Lst("time", 0), Lst("time", 3), Lst("time", 7)}
AllServers == {[kind |-> "ok", tag |-> <<"2">>], [kind |-> "ok", tag |-> <<"1">>], [kind |-> "ok", tag |-> <<"v", "2">>],
            [kind |-> "bad", tag |-> << >>], [kind |-> "odd", tag |-> << >>]}

Servers == {s \in AllServers : s.kind \in Answered}

ConfOp(c, n) == [a |-> "Conf", c |-> c, n |-> n]
LastSet(l) == [a |-> "Last", l |-> l]
ServerOp(s) == [a |-> "Server", s |-> [kind |-> s.kind, tag |-> IF s.kind # "ok" THEN "" ELSE Join(s.tag)]]

\* random walks start anywhere, in half of the cases with no settings
Init == /\ kind = "any"
        /\ IF Weigh
           THEN \E c \in Confs, l \in Lasts, s \in Servers :
                   \E n \in 1..(IF c = NoSettings THEN Cardinality(Confs) - 1 ELSE 1) :
                      /\ conf = c /\ last = l /\ srv = s
                      /\ disk = Disk0 /\ app = "old" /\ ret = [cmd |-> "none"]
                      /\ hist = <<ConfOp(c, n), LastSet(l), ServerOp(s)>>
           ELSE AInit(Disk0) /\ hist = << >>
Steps == Len(hist) - (IF Weigh THEN 3 ELSE 0)

LastOp == IF hist = << >> THEN "" ELSE hist[Len(hist)].a

Op(l) == hist' = Append(hist, l) /\ kind' = "any"
Is(k) == IF Weigh THEN kind = k ELSE TRUE
Choose == /\ Weigh
          /\ kind = "any"
          /\ kind' \in CmdSet \cup (IF CutSet = {} THEN {} ELSE {"Cut"}) \cup ({"Conf", "Last", "Server"} \ {LastOp})
          /\ UNCHANGED <<avars, hist>>

Next ==
    /\ Steps < MaxLen
    /\ \/ Choose
       \/ \E cmd \in CmdSet, flag \in Flags, k \in Pws, a \in Answers, y \in BOOLEAN :
             /\ Is(cmd)
             /\ (cmd \notin VaultCmds => flag = "" /\ k = "right")
             /\ (cmd = "update" \/ y = FALSE)
             /\ (cmd = "configure" \/ (cmd \in VaultCmds /\ ~conf.present) \/ a = <<Keep, Keep, Keep, Keep>>)
             /\ LET p0 == Plan(cmd, flag, At, a, "", y)
                    pw == IF k = "right" THEN p0.vault ELSE "wrong"
                IN  Run(cmd, flag, At, a, pw, y)
             /\ Op([a |-> "Run", cmd |-> cmd, flag |-> flag, pw |-> k, ans |-> AnsKind(a), consent |-> y])
       \/ \E cmd \in CutSet, flag \in Flags, a \in Answers, w \in {"dialog", "prompt"} :
             /\ Is("Cut")
             /\ (cmd \notin VaultCmds => flag = "")
             /\ (cmd = "configure" \/ ~conf.present \/ a = <<Keep, Keep, Keep, Keep>>)
             /\ Cut(cmd, flag, At, a, w)
             /\ Op([a |-> "Cut", cmd |-> cmd, flag |-> flag, pw |-> "right", ans |-> AnsKind(a), consent |-> FALSE, where |-> w])
       \/ \E c \in Confs : Is("Conf") /\ LastOp # "Conf" /\ c # conf /\ EditConf(c) /\ Op(ConfOp(c, 1))
       \/ \E l \in Lasts : Is("Last") /\ LastOp # "Last" /\ l # last /\ SetLast(l) /\ Op(LastSet(l))
       \/ \E s \in Servers : Is("Server") /\ LastOp # "Server" /\ s # srv /\ SetServer(s)
                              /\ Op(ServerOp(s))

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the design *)

IsRun == ret.cmd # "none"

\* C21: only items of the vault selected, C01: only with its password
InvSelected == IsRun /\ ret.shows # {} =>
                 /\ ret.opens
                 /\ ret.vault = ret.path
                 /\ LET l == hist[Len(hist)] IN
                      /\ l.pw = "right"
                      /\ ret.path = (IF l.flag # "" THEN l.flag ELSE conf.vault)
                 /\ \A it \in ret.shows : it.uid = ret.vault
\* C19: a vault that is none is refused, and no password asked for
InvRefused == IsRun /\ ret.cmd \in VaultCmds => (ret.refused # ret.prompts)
\* C23: the dialog runs only for configure, or once
InvDialog == IsRun /\ ret.dialog => conf.present
\* C13
InvConsent == app = "new" => \E n \in 1..Len(hist) : hist[n].a = "Run" /\ hist[n].cmd = "update" /\ hist[n].consent
\* C15, as properties of steps
StepRecorded == [][last' # last /\ ret'.cmd # "none" => TRUE \in ret'.asks /\ srv.kind # "bad"]_vars
StepNotify == [][ret'.cmd \in ItemCmds \cup {"categories"} /\ ~conf.notify /\ ~ret'.dialog => ret'.asks = {FALSE}]_vars
StepCut == [][hist' # hist /\ Len(hist') > 0 /\ hist'[Len(hist')].a = "Cut" =>
                app' = app /\ (hist'[Len(hist')].where = "dialog" \/ conf.present => conf' = conf)]_vars
StepFlag == [][ret'.cmd \in VaultCmds /\ ~ret'.dialog => conf' = conf]_vars

View == <<avars, LastOp, kind>>

EmitAll == ~Emit \/ PrintT("HIST " \o ToJson(hist'))
EmitLong == ~Emit \/ Steps < MaxLen \/ PrintT("HIST " \o ToJson(hist))
=============================================================================
