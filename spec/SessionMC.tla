------------------------------ MODULE SessionMC ------------------------------
(* The session with small vaults: exhaustive check of the properties and      *)
(* source of the histories that are replayed into the implementation.         *)
EXTENDS Session, Json

CONSTANTS Vaults, MaxChanges, MaxLen,
          ChangeNames,    \* the changes on disk that occur
          Emit,           \* TRUE: print every history (for the replay)
          Weigh           \* TRUE: choose the kind of step first (for random walks)

VARIABLES hist,           \* the operations so far
          truth,          \* what the vault unlocked last held at that moment
          tries,          \* the last attempt: [pw, right, ok, was]
          changes,
          kind            \* the kind of step chosen

vars == <<svars, hist, truth, tries, changes, kind>>

D(x) == [form |-> <<[name |-> "n", value |-> x]>>, sections |-> << >>, notes |-> ""]
St == [raw |-> "0", day |-> 0, sec |-> 0]
Thing(v, n, t) == [uid |-> v \o n, cat |-> "001", trashed |-> t, created |-> St, updated |-> St,
                   title |-> n, titlec |-> <<97>>, url |-> "", details |-> D(v), tamper |-> {}]
Odd(v) == [Thing(v, "z", FALSE) EXCEPT !.cat = "012"]

Vault0(v) == [pw |-> v, prof |-> "good", items |-> {Thing(v, "1", FALSE), Odd(v)}]

Changes(s) ==
    LET i1 == {it \in s.items : it.title = "1"}
        v  == (CHOOSE it \in s.items : TRUE).details.form[1].value
    IN  [Add     |-> [s EXCEPT !.items = @ \cup {Thing(v, "2", TRUE)}],
         Del     |-> [s EXCEPT !.items = @ \ i1],
         Edit    |-> [s EXCEPT !.items = {IF it \in i1 THEN [it EXCEPT !.url = "new"] ELSE it : it \in @}],
         Trash   |-> [s EXCEPT !.items = {IF it \in i1 THEN [it EXCEPT !.trashed = ~@] ELSE it : it \in @}],
         Rekey   |-> [s EXCEPT !.pw = "new" \o v],
         Tamperk |-> [s EXCEPT !.items = {IF it \in i1 THEN [it EXCEPT !.tamper = @ \cup {"k"}] ELSE it : it \in @}],
         Tampero |-> [s EXCEPT !.items = {IF it \in i1 THEN [it EXCEPT !.tamper = @ \cup {"o"}] ELSE it : it \in @}],
         Tamperd |-> [s EXCEPT !.items = {IF it \in i1 THEN [it EXCEPT !.tamper = @ \cup {"d"}] ELSE it : it \in @}],
         Profm   |-> [s EXCEPT !.prof = "masterKey"],
         Profo   |-> [s EXCEPT !.prof = "overviewKey"],
         Repair  |-> [s EXCEPT !.prof = "good", !.items = {[it EXCEPT !.tamper = {}] : it \in @}]]

Label(c, v) == CASE c = "Tamperk" -> [a |-> "Tamper", v |-> v, part |-> "k"]
                 [] c = "Tampero" -> [a |-> "Tamper", v |-> v, part |-> "o"]
                 [] c = "Tamperd" -> [a |-> "Tamper", v |-> v, part |-> "d"]
                 [] c = "Profm"   -> [a |-> "TamperProfile", v |-> v, part |-> "masterKey"]
                 [] c = "Profo"   -> [a |-> "TamperProfile", v |-> v, part |-> "overviewKey"]
                 [] OTHER         -> [a |-> c, v |-> v]

NoTry == [right |-> FALSE, ok |-> FALSE, waso |-> FALSE, wass |-> {}]

Init == /\ SInit([v \in Vaults |-> Vault0(v)])
        /\ hist = << >>
        /\ truth = {}
        /\ tries = NoTry
        /\ changes = 0
        /\ kind = "any"

Op(l) == hist' = Append(hist, l) /\ kind' = "any"
Is(K) == IF Weigh THEN kind \in K ELSE TRUE
LastOp == IF hist = << >> THEN "" ELSE hist[Len(hist)].a

Choose == /\ Weigh
          /\ kind = "any"
          /\ kind' \in (IF loaded.v = "" THEN {"Validate"} ELSE {"Validate", "right1", "right2", "wrong"})
                       \cup (IF hist = << >> THEN {} ELSE {"Lock", "Query"} \ {LastOp})
                       \cup (IF changes < MaxChanges THEN {"Change", "ChangeThis"} ELSE {})
          /\ UNCHANGED <<svars, hist, truth, tries, changes>>

Next ==
    /\ Len(hist) < MaxLen
    /\ \/ Choose
       \/ \E v \in Vaults : /\ Is({"Validate"})
                            /\ Validate(v)
                            /\ Op([a |-> "Validate", v |-> v])
                            /\ tries' = NoTry
                            /\ UNCHANGED <<truth, changes>>
       \/ \E k \in {"right", "wrong", "other"} :
             /\ Is(IF k = "right" THEN {"right1", "right2"} ELSE {"wrong"})
             /\ loaded.v # ""
             /\ LET o  == CHOOSE x \in Vaults : x # loaded.v
                    pw == CASE k = "right" -> disk[loaded.v].pw
                            [] k = "wrong" -> "bad"
                            [] OTHER -> disk[o].pw
                IN  /\ Unlock(loaded.v, pw)
                    /\ tries' = [right |-> pw = loaded.pw /\ loaded.prof = "good", ok |-> ret'.ok, waso |-> open, wass |-> shown]
             /\ truth' = IF ret'.ok THEN Contents(disk[loaded.v]) ELSE truth
             /\ Op([a |-> "Unlock", pw |-> k])
             /\ UNCHANGED changes
       \/ /\ Is({"Lock"})
          /\ Lock
          /\ Op([a |-> "Lock"])
          /\ tries' = NoTry
          /\ UNCHANGED <<truth, changes>>
       \/ /\ Is({"Query"})
          /\ hist # << >>
          /\ hist[Len(hist)].a # "Query"
          /\ Query([op |-> "Query", n |-> CountOf("", FALSE) + CountOf("", TRUE), all |-> Matching("", << >>, FALSE) \cup Matching("", << >>, TRUE)])
          /\ Op([a |-> "Query"])
          /\ UNCHANGED <<truth, tries, changes>>
       \/ /\ changes < MaxChanges
          /\ \E v \in Vaults, c \in ChangeNames :
               /\ Is({"Change", "ChangeThis"})
               /\ (Weigh /\ kind = "ChangeThis" /\ loaded.v # "" => v = loaded.v)
               /\ disk[v].items # {}
               /\ Changes(disk[v])[c] # disk[v]
               /\ Disk(v, Changes(disk[v])[c])
               /\ Op(Label(c, v))
          /\ changes' = changes + 1
          /\ tries' = NoTry
          /\ UNCHANGED truth

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the design *)

\* C01: accepted exactly with the right password; a refusal changes nothing
InvPassword == ret.op = "Unlock" => /\ ret.ok = tries.right
                                    /\ (~ret.ok => open = tries.waso /\ shown = tries.wass)
\* C05
InvLocked == ~open => shown = {}
\* C06, C02: the items are exactly those the vault held when it was opened
InvShown == open => shown = truth
\* C04: nothing of an altered part is shown
InvAltered == \A it \in shown : \A v \in Vaults : \A s \in disk[v].items :
                 (s.uid = it.uid /\ it = Reveal(s)) =>
                    /\ ("o" \in s.tamper => it.title = "")
                    /\ ({"k", "d"} \cap s.tamper # {} => it.sections = << >>)
\* C07: the queries agree with each other
InvQueries == ret.op = "Query" => ret.n = Cardinality(ret.all) /\ ret.all = shown

\* hist is not part of the state for the exhaustive search
View == <<disk, loaded, open, shown, ret, truth, tries, changes, kind,
          IF hist = << >> THEN "" ELSE hist[Len(hist)].a>>

EmitAll == ~Emit \/ PrintT("HIST " \o ToJson(hist'))
EmitLong == ~Emit \/ Len(hist) < MaxLen \/ PrintT("HIST " \o ToJson(hist))
=============================================================================
