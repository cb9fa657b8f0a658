------------------------------ MODULE SaveSteps ------------------------------
(* Saving step by step on a file system, with the process being killed, or an *)
(* operation failing, at every step; a later save finds what was left behind. *)
(* It refines Save, and is the source of the histories of the real program.   *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Values, None, MaxLen, Emit

\* contents of a file: [k, c]; k "none": no such file, "part": incomplete, "whole"
VARIABLES file, tmp, pc, want, hist

vars == <<file, tmp, pc, want, hist>>

Absent == [k |-> "none", c |-> None]
Partial == [k |-> "part", c |-> None]
Whole(c) == [k |-> "whole", c |-> c]

Init == /\ file \in {Absent} \cup {Whole(c) : c \in Values \ {None}}
        /\ tmp = Absent
        /\ pc = "idle"
        /\ want = None
        /\ hist = << >>

Say(l) == hist' = Append(hist, l)
Quiet == UNCHANGED hist

Begin(c) == /\ pc = "idle"
            /\ pc' = "create"
            /\ want' = c
            /\ UNCHANGED <<file, tmp>>
            /\ Quiet
Create == pc = "create" /\ tmp' = Partial /\ pc' = "write" /\ UNCHANGED <<file, want>> /\ Quiet
Write  == pc = "write" /\ tmp' = Whole(want) /\ pc' = "rename" /\ UNCHANGED <<file, want>> /\ Quiet
Rename == pc = "rename" /\ file' = tmp /\ tmp' = Absent /\ pc' = "saved" /\ UNCHANGED want /\ Quiet
Return == pc = "saved" /\ pc' = "idle" /\ UNCHANGED <<file, tmp, want>> /\ Say([a |-> "Save", how |-> "none", at |-> 0])

At == CASE pc = "create" -> 1 [] pc = "write" -> 2 [] pc = "rename" -> 3 [] pc = "saved" -> 4
Hows == {"kill", "halfkill", "eio", "dead", "full"}
Stop(how) == /\ pc # "idle"
             /\ pc' = "idle"
             /\ UNCHANGED <<file, tmp, want>>
             /\ Say([a |-> "Save", how |-> how, at |-> At])
Edit(f) == /\ pc = "idle"
           /\ file' = f
           /\ UNCHANGED <<tmp, pc, want>>
           /\ Say([a |-> "Conf", present |-> f # Absent])

Next == /\ Len(hist) < MaxLen
        /\ \/ \E c \in Values \ {None} : Begin(c)
           \/ Create \/ Write \/ Rename \/ Return
           \/ \E h \in Hows : Stop(h)
           \/ \E f \in {Absent} \cup {Whole(c) : c \in Values \ {None}} : Edit(f)

Spec == Init /\ [][Next]_vars

\* C18: what a run finds is complete
InvComplete == file.k # "part" /\ file.c \in Values

A == INSTANCE Save WITH stored <- file.c, busy <- (pc # "idle")
Refines == A!RSpec

View == <<file, tmp, pc, want>>
EmitLong == ~Emit \/ Len(hist) < MaxLen \/ PrintT("HIST " \o ToJson(hist))
=============================================================================
