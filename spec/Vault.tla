-------------------------------- MODULE Vault --------------------------------
(* What a stored vault shows: its items, lists, counts, and the text of an    *)
(* item.  A stored vault is [pw, prof, items]:                                *)
(*   pw     its master password                                               *)
(*   prof   "good", or which of the vault's encrypted keys is altered         *)
(*   items  set of items; tamper is the set of encrypted parts of the item    *)
(*          ("k" keys, "d" details, "o" overview) that are altered            *)
EXTENDS Decode

Categories == <<[code |-> "001", name |-> "Login"],           [code |-> "002", name |-> "Credit Card"],
                [code |-> "003", name |-> "Secure Note"],     [code |-> "004", name |-> "Identity"],
                [code |-> "005", name |-> "Password"],        [code |-> "099", name |-> "Tombstone"],
                [code |-> "100", name |-> "Software License"],[code |-> "101", name |-> "Bank Account"],
                [code |-> "102", name |-> "Database"],        [code |-> "103", name |-> "Driver License"],
                [code |-> "104", name |-> "Outdoor License"], [code |-> "105", name |-> "Membership"],
                [code |-> "106", name |-> "Passport"],        [code |-> "107", name |-> "Rewards"],
                [code |-> "108", name |-> "SSN"],             [code |-> "109", name |-> "Router"],
                [code |-> "110", name |-> "Server"],          [code |-> "111", name |-> "Email"]>>

KnownCats == {Categories[n].code : n \in 1..Len(Categories)}

\* the order of category codes
CatNo == [c \in KnownCats |-> CHOOSE n \in 1..Len(Categories) : Categories[n].code = c]
CatName(c) == Categories[CatNo[c]].name

-----------------------------------------------------------------------------
(* What a stored item shows *)

Reveal(it) ==
    LET o == "o" \notin it.tamper
        d == it.tamper \cap {"d", "k"} = {}
    IN  [uid      |-> it.uid,
         cat      |-> it.cat,
         trashed  |-> it.trashed,
         created  |-> it.created,
         updated  |-> it.updated,
         title    |-> IF o THEN it.title ELSE "",
         titlec   |-> IF o THEN it.titlec ELSE << >>,
         url      |-> IF o THEN it.url ELSE "",
         notes    |-> IF d THEN it.details.notes ELSE "",
         sections |-> IF d THEN SectionsOf(it.details) ELSE << >>]

Contents(vault) == {Reveal(it) : it \in {x \in vault.items : x.cat \in KnownCats}}

-----------------------------------------------------------------------------
(* Queries on a set of items *)

MatchingIn(S, c, q, t) == {it \in S : /\ it.trashed = t
                                      /\ (c = "" \/ it.cat = c)
                                      /\ OccursNoCase(q, it.titlec)}

CountIn(S, c, t) == Cardinality({it \in S : it.trashed = t /\ (c = "" \/ it.cat = c)})

ItemIn(S, uid, t) == {it \in S : it.uid = uid /\ it.trashed = t}

\* a is listed before b
ListedBefore(a, b) == \/ CatNo[a.cat] < CatNo[b.cat]
                      \/ a.cat = b.cat /\ Before(a.titlec, b.titlec)

-----------------------------------------------------------------------------
(* The text of an item *)

Dashes == "------------------------------\n"
Mask == "**********"

FieldLines(fields, masked) ==
    Join([i \in 1..Len(fields) |-> fields[i].n \o ": " \o (IF masked THEN Mask ELSE fields[i].v) \o "\n"])

SectionText(s, masked) ==
    "\n" \o (IF s.title = "" THEN "" ELSE s.title \o "\n") \o Dashes \o FieldLines(s.fields, masked)

\* everything up to the notes
ItemHead(it, masked) ==
    CatName(it.cat) \o "\n" \o Dashes \o it.title \o "\n\n"
    \o "Updated: " \o TimeText(it.updated, TzOffset) \o "\n"
    \o "Created: " \o TimeText(it.created, TzOffset) \o "\n"
    \o "Trashed: " \o (IF it.trashed THEN "true" ELSE "false") \o "\n"
    \o (IF it.url = "" THEN "" ELSE "URL: " \o it.url \o "\n")
    \o Join([i \in 1..Len(it.sections) |-> SectionText(it.sections[i], masked)])
    \o (IF Len(it.sections) > 0 THEN "\n" ELSE "")

ItemNotes(it, masked) ==
    IF it.notes = "" THEN ""
    ELSE (IF Len(it.sections) = 0 THEN "\n" ELSE "")
         \o "Notes\n" \o Dashes \o (IF masked THEN Mask ELSE it.notes) \o "\n"

ItemText(it, masked) == ItemHead(it, masked) \o ItemNotes(it, masked)
=============================================================================
