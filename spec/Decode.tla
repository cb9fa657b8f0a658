------------------------------- MODULE Decode -------------------------------
(* What an item shows, as a function of what is stored in its details.        *)
(* Stored details are a record                                                *)
(*   form      sequence of [name, value]           (login forms)              *)
(*   sections  sequence of [title, fields]; a field is                        *)
(*             [k, t, has, v, d, parts]: kind, label, whether a value is      *)
(*             stored, and the value as text / point in time / address parts  *)
(*   notes     text                                                           *)
(* The result is the sequence of sections with their labelled values.         *)
EXTENDS Text

CONSTANTS TzEast, TzWest   \* seconds by which local time is ahead of / behind UTC

TzOffset == TzEast - TzWest

\* [k, v, kc] in the order of their keys
RECURSIVE SortParts(_)
SortParts(P) ==
    IF P = {} THEN << >>
    ELSE LET f == CHOOSE x \in P : \A y \in P : y = x \/ Before(x.kc, y.kc)
         IN  <<f>> \o SortParts(P \ {f})

AddressText(parts) ==
    LET l == SortParts({parts[i] : i \in 1..Len(parts)})
    IN  Join([i \in 1..Len(l) |-> "\n  " \o l[i].k \o ": " \o l[i].v])

MonthYearText(v) == IF Len(v) > 4 THEN SubSeq(v, 1, 4) \o "-" \o SubSeq(v, 5, Len(v)) ELSE v

FieldValue(f) ==
    LET k == LowerStr(f.k)
    IN  CASE k = "date"      -> DateText(f.d, TzOffset)
          [] k = "monthyear" -> MonthYearText(f.v)
          [] k = "address"   -> AddressText(f.parts)
          [] OTHER           -> f.v

FormFields(form) ==
    LET keep == SelectSeq(form, LAMBDA f : f.name # "" /\ f.value # "")
    IN  [i \in 1..Len(keep) |-> [n |-> Capitalised(keep[i].name), v |-> keep[i].value]]

SectionFields(fields) ==
    LET keep == SelectSeq(fields, LAMBDA f : f.has)
    IN  [i \in 1..Len(keep) |-> [n |-> Capitalised(keep[i].t), v |-> FieldValue(keep[i])]]

SectionsOf(details) ==
    LET form == FormFields(details.form)
        first == IF Len(form) = 0 THEN << >> ELSE <<[title |-> "", fields |-> form]>>
        all == [i \in 1..Len(details.sections) |->
                  [title  |-> Capitalised(details.sections[i].title),
                   fields |-> SectionFields(details.sections[i].fields)]]
    IN  first \o SelectSeq(all, LAMBDA s : s.title # "" \/ Len(s.fields) > 0)
=============================================================================
