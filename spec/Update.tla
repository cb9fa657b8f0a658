------------------------------- MODULE Update -------------------------------
(* The update command seen from outside: which contents it may install, and   *)
(* when it has to succeed.                                                    *)
(*                                                                            *)
(* A release as downloaded:                                                   *)
(*   arc  [tr, entries]  the archive; tr "ok": transferred completely, "cut": *)
(*        perhaps not, "bad": nothing useful; an entry is [name, type, id,    *)
(*        md5], the name as characters, id standing for its content           *)
(*   sum  [tr, text]     the published checksum file, as characters           *)
EXTENDS Version

Blank == {" ", "\t", "\n", "\r"}

\* the first word of a text
RECURSIVE SkipBlank(_), Word(_)
SkipBlank(s) == IF Len(s) > 0 /\ Head(s) \in Blank THEN SkipBlank(Tail(s)) ELSE s
Word(s) == IF Len(s) = 0 \/ Head(s) \in Blank THEN << >> ELSE <<Head(s)>> \o Word(Tail(s))
FirstWord(s) == Word(SkipBlank(s))

HexUpper == {"A", "B", "C", "D", "E", "F"}

-----------------------------------------------------------------------------
(* Names in archives *)

\* the parts of a name that lead somewhere
NameParts(n) == SelectSeq(SplitAt(n, "/", << >>), LAMBDA p : p # << >> /\ p # <<".">>)
Absolute(n) == Len(n) > 0 /\ Head(n) = "/"
Up == <<".", ".">>
Climbs(n) == \E k \in 1..Len(NameParts(n)) : NameParts(n)[k] = Up

\* where a name leads, from the directory the archive is extracted in: how many
\* directories up, and then down
RECURSIVE Walk(_, _, _)
Walk(ps, up, down) ==
    IF ps = << >> THEN [up |-> up, down |-> down]
    ELSE IF Head(ps) # Up THEN Walk(Tail(ps), up, Append(down, Head(ps)))
    ELSE IF Len(down) > 0 THEN Walk(Tail(ps), up, SubSeq(down, 1, Len(down) - 1))
    ELSE Walk(Tail(ps), up + 1, down)
LeadsTo(n) == Walk(NameParts(n), 0, << >>)
Inside(n) == LeadsTo(n).up = 0

AppName == <<"1", "p", "a", "s", "s">>

\* an entry that may be the application
Candidate(e) == e.type = "reg" /\ Len(NameParts(e.name)) > 0 /\ NameParts(e.name)[Len(NameParts(e.name))] = AppName

\* an entry every release may have: a file beside the application, or the
\* directory they are in
Plain(e) == /\ ~Absolute(e.name)
            /\ ~Climbs(e.name)
            /\ \/ e.type = "reg" /\ Len(NameParts(e.name)) = 1
               \/ e.type = "dir" /\ Len(NameParts(e.name)) = 0
IsApp(e) == e.type = "reg" /\ NameParts(e.name) = <<AppName>>

-----------------------------------------------------------------------------
Entries(r) == {r.arc.entries[k] : k \in 1..Len(r.arc.entries)}

\* upper case digits of a checksum may be accepted or not
Clear(s) == \A k \in 1..Len(s) : s[k] \notin HexUpper
Matches(e, r) == FirstWord(r.sum.text) = e.md5
MayMatch(e, r) == Matches(e, r) \/ ~Clear(FirstWord(r.sum.text))

\* the contents that may be installed
Installable(r) == IF r.arc.tr = "bad" \/ r.sum.tr = "bad" THEN {}
                  ELSE {e.id : e \in {x \in Entries(r) : Candidate(x) /\ MayMatch(x, r)}}

\* a sound release
Sound(r) == /\ r.arc.tr = "ok"
            /\ r.sum.tr = "ok"
            /\ \A e \in Entries(r) : Plain(e)
            /\ \A j, k \in 1..Len(r.arc.entries) : r.arc.entries[j].type = "reg" /\ NameParts(r.arc.entries[j].name) = NameParts(r.arc.entries[k].name) => j = k
            /\ \E e \in Entries(r) : IsApp(e) /\ Matches(e, r)
=============================================================================
