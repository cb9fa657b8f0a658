------------------------------- MODULE SaveRace -------------------------------
(* Several saves of the settings at the same time, step by step.  Private:    *)
(* every run writes a file of its own before it takes the place of the        *)
(* settings; then it refines RaceReg.  With a shared file it does not: the    *)
(* behaviours that show it are schedules for the real program, as are those   *)
(* that do not.                                                               *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets

CONSTANTS Runs, Private, Kills, Emit, MaxLen

\* contents: <<0>> the first settings, <<p>> what run p saves, << >> incomplete,
\* <<98>> no file
VARIABLES file, tmp, pc, verdict, inst, doom, hist, torn

vars == <<file, tmp, pc, verdict, inst, doom, hist, torn>>

Gone == <<98>>
T(p) == IF Private THEN p ELSE 1

\* where a run is going to be killed
Stages == {"create", "write", "rename", "saved"}

Init == /\ file = <<0>>
        /\ tmp = [p \in Runs |-> Gone]
        /\ pc = [p \in Runs |-> "off"]
        /\ verdict = [p \in Runs |-> "none"]
        /\ inst = {}
        /\ doom \in IF Kills /\ Emit THEN [Runs -> Stages \cup {"none"}] ELSE {[p \in Runs |-> IF Kills THEN "any" ELSE "none"]}
        /\ hist = << >>
        /\ torn = FALSE

Go(p, s) == pc' = [pc EXCEPT ![p] = s] /\ UNCHANGED verdict
Stop(p, v) == pc' = [pc EXCEPT ![p] = "over"] /\ verdict' = [verdict EXCEPT ![p] = v]
Say(p, s) == hist' = IF Emit THEN Append(hist, [p |-> p, s |-> s]) ELSE hist

Start(p)  == pc[p] = "off" /\ Go(p, "create") /\ UNCHANGED <<file, tmp, inst>>
Create(p) == pc[p] = "create" /\ tmp' = [tmp EXCEPT ![T(p)] = << >>] /\ Go(p, "write") /\ UNCHANGED <<file, inst>>
\* a file that took its place in the meantime is written where it is now
Write(p)  == /\ pc[p] = "write"
             /\ IF tmp[T(p)] = Gone THEN file' = <<p>> /\ UNCHANGED tmp
                ELSE tmp' = [tmp EXCEPT ![T(p)] = <<p>>] /\ UNCHANGED file
             /\ Go(p, "rename") /\ UNCHANGED inst
Rename(p) == /\ pc[p] = "rename"
             /\ IF tmp[T(p)] = Gone THEN Stop(p, "failed") /\ UNCHANGED <<file, tmp, inst>>
                ELSE file' = tmp[T(p)] /\ tmp' = [tmp EXCEPT ![T(p)] = Gone] /\ inst' = inst \cup {p} /\ Go(p, "saved")
Return(p) == pc[p] = "saved" /\ Stop(p, "ok") /\ UNCHANGED <<file, tmp, inst>>
Kill(p)   == doom[p] \in {"any", pc[p]} /\ pc[p] \notin {"off", "over"} /\ Stop(p, "killed") /\ UNCHANGED <<file, tmp, inst>>

Doing(p) == Start(p) \/ Create(p) \/ Write(p) \/ Rename(p) \/ Return(p)

Next == \E p \in Runs : /\ \/ Doing(p) /\ doom[p] # pc[p] /\ Say(p, IF pc[p] = "off" THEN "start" ELSE pc[p])
                           \/ Kill(p) /\ Say(p, "kill")
                        /\ torn' = (torn \/ (file' # file /\ file' # <<p>>) \/ verdict'[p] = "failed")
                        /\ UNCHANGED doom

Spec == Init /\ [][Next]_vars

Val == IF file = << >> THEN 99 ELSE file[1]
InvWhole == file # << >>
InvSaved == \A p \in Runs : verdict[p] # "failed" /\ (verdict[p] = "ok" => p \in inst)
R == INSTANCE RaceReg WITH val <- Val, busy <- {p \in Runs : pc[p] \notin {"off", "over"}}, First <- 0, did <- inst
Refines == R!RSpec

Over == \A p \in Runs : pc[p] = "over"
EmitLong == ~Emit \/ ~Over \/ PrintT("HIST " \o ToJson(Append(hist, [torn |-> torn, sound |-> [p \in Runs |-> TRUE]])))
=============================================================================
