--------------------------------- MODULE App ---------------------------------
(* The application as a user runs it, command by command.                     *)
(*                                                                            *)
(* conf  the stored settings (see Dialog); present = FALSE: there are none    *)
(* last  when the update server was asked last: [kind, days, fresh], "none"   *)
(*       (never recorded), "bad" (unreadable) or "time", days the whole days  *)
(*       between then and now, fresh: it was recorded by the last command     *)
(* srv   what the update server answers: [kind, tag]                          *)
(*       "ok"   a list of releases, tag is the version of the first one       *)
(*       "bad"  no list of releases at all (refused, cut off, not JSON, ...)  *)
(*       "odd"  a JSON list that is no proper list of releases                *)
(* disk  the vaults: identifier -> stored vault                               *)
(* app   the installed application: "old" or "new"                            *)
(* ret   what the last command does, as far as it can be observed             *)
EXTENDS Vault, Dialog

CONSTANT Current          \* the version of the application, as characters

VARIABLES conf, last, srv, disk, app, ret

avars == <<conf, last, srv, disk, app, ret>>

ItemCmds  == {"list", "overview", "details"}
VaultCmds == ItemCmds \cup {"gui"}
Cmds      == VaultCmds \cup {"categories", "configure", "version", "update"}

JustNow == [kind |-> "time", days |-> 0, fresh |-> TRUE]

-----------------------------------------------------------------------------
(* Checking for updates *)

Due(c, l) == c.notify /\ (c.period = 0 \/ l.kind # "time" \/ l.days >= c.period)

Offered == srv.kind = "ok" /\ Newer(Current, srv.tag)

\* when a check was made: the answers "odd" may count as a completed check or not
After(l) == IF srv.kind = "ok" THEN {JustNow} ELSE IF srv.kind = "bad" THEN {l} ELSE {l, JustNow}

-----------------------------------------------------------------------------
(* What a command does.  flag: the vault given ("" none), at: path -> vault   *)
(* identifier for the paths that are vaults, a: answers, pw: password typed   *)

Plan(cmd, flag, at, a, pw, consent) ==
    LET dlg   == cmd = "configure" \/ (cmd \in VaultCmds /\ ~conf.present)
        c1    == IF dlg THEN AfterDialog(conf, a) ELSE conf
        ask1  == dlg /\ Due(conf, last)
        l1    == IF ask1 THEN After(last) ELSE {last}
        path  == IF flag # "" THEN flag ELSE c1.vault
        valid == cmd \in VaultCmds /\ path \in DOMAIN at
        v     == IF valid THEN at[path] ELSE ""
        good  == valid /\ disk[v].prof = "good" /\ pw = disk[v].pw
        \* may be asked again by the command itself
        ask2(l) == \/ cmd \in ItemCmds \cup {"categories"} /\ Due(c1, l)
                   \/ cmd = "gui" /\ valid
                   \/ cmd = "update"
        l2    == UNION {IF ask2(l) THEN After(l) ELSE {l} : l \in l1}
        notes == {(IF ask1 /\ Offered THEN 1 ELSE 0) + (IF cmd \in ItemCmds \cup {"categories"} /\ ask2(l) /\ Offered THEN 1 ELSE 0) : l \in l1}
    IN  [cmd      |-> cmd,
         dialog   |-> dlg,
         conf     |-> c1,
         asks     |-> {ask1 \/ ask2(l) : l \in l1},
         mids     |-> l1,                       \* the last check, as far as known when the dialog starts
         early    |-> ask1,
         lasts    |-> l2,
         notices  |-> notes,                    \* announcements of a newer release
         path     |-> path,
         refused  |-> cmd \in VaultCmds /\ ~valid,
         prompts  |-> valid,
         vault    |-> v,
         opens    |-> good,
         shows    |-> IF good THEN Contents(disk[v]) ELSE {},
         installs |-> cmd = "update" /\ Offered /\ consent,
         asksPerm |-> cmd = "update" /\ Offered]

-----------------------------------------------------------------------------
AInit(d) == /\ conf = NoSettings
            /\ last = [kind |-> "none", days |-> 0, fresh |-> FALSE]
            /\ srv = [kind |-> "bad", tag |-> << >>]
            /\ disk = d
            /\ app = "old"
            /\ ret = [cmd |-> "none"]

Run(cmd, flag, at, a, pw, consent) ==
    LET p == Plan(cmd, flag, at, a, pw, consent)
    IN  /\ ret' = p
        /\ conf' = p.conf
        /\ last' \in p.lasts
        /\ app' = IF p.installs THEN "new" ELSE app
        /\ UNCHANGED <<srv, disk>>

\* the command is cut off by a signal, at a question of the dialog or at the
\* password prompt (or later, before it ends by itself): nothing is half done
CutAt(p) == {w \in {"dialog", "prompt"} : IF w = "dialog" THEN p.dialog ELSE p.prompts}
Cut(cmd, flag, at, a, w) ==
    LET p == Plan(cmd, flag, at, a, "", FALSE)
    IN  /\ w \in CutAt(p)
        /\ ret' = [cmd |-> "none"]
        /\ conf' = IF w = "dialog" THEN conf ELSE p.conf
        /\ last' \in IF w = "dialog" THEN p.mids ELSE p.lasts
        /\ UNCHANGED <<srv, disk, app>>

\* the settings file is edited by hand, or removed
EditConf(c) == conf' = c /\ ret' = [cmd |-> "none"] /\ UNCHANGED <<last, srv, disk, app>>
\* time passes, or the record of the last check is changed by hand
SetLast(l)  == last' = l /\ ret' = [cmd |-> "none"] /\ UNCHANGED <<conf, srv, disk, app>>
SetServer(s) == srv' = s /\ ret' = [cmd |-> "none"] /\ UNCHANGED <<conf, last, disk, app>>
SetDisk(d)  == disk' = d /\ ret' = [cmd |-> "none"] /\ UNCHANGED <<conf, last, srv, app>>
=============================================================================
