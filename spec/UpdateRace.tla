------------------------------ MODULE UpdateRace ------------------------------
(* Several updates at the same time, step by step, each of a release of its   *)
(* own (which may have a checksum that does not match).  Each starts by       *)
(* clearing the cache: that of all.  Private: every update works in a         *)
(* directory of its own; then an update can make another fail, but never      *)
(* install anything unverified.  With a shared directory it can: the          *)
(* behaviours that show it are schedules for the real program, as are those   *)
(* that do not.                                                               *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets

CONSTANTS Runs, Private, Kills, Emit, MaxLen

Gone == [k |-> "gone", c |-> 0, x |-> FALSE]
Part == [k |-> "part", c |-> 0, x |-> FALSE]
Whole(c) == [k |-> "whole", c |-> c, x |-> FALSE]

VARIABLES app, dir, pc, sound, verdict, inst, doom, hist, torn

vars == <<app, dir, pc, sound, verdict, inst, doom, hist, torn>>

Empty == [there |-> FALSE, arc |-> Gone, sum |-> Gone, ext |-> Gone]
D(p) == IF Private THEN p ELSE 1
My(p) == dir[D(p)]

\* where a run is going to be killed
Stages == {"clear", "mkdir", "arc", "sum", "ext", "ext2", "check", "chmod", "rename", "clean", "finish"}

Init == /\ app = [k |-> "whole", c |-> 0, x |-> TRUE]
        /\ dir = [p \in Runs |-> Empty]
        /\ pc = [p \in Runs |-> "off"]
        /\ sound \in SUBSET Runs
        /\ verdict = [p \in Runs |-> "none"]
        /\ inst = {}
        /\ doom \in IF Kills /\ Emit THEN [Runs -> Stages \cup {"none"}] ELSE {[p \in Runs |-> IF Kills THEN "any" ELSE "none"]}
        /\ hist = << >>
        /\ torn = FALSE

Go(p, s) == pc' = [pc EXCEPT ![p] = s] /\ UNCHANGED verdict
Stop(p, v) == pc' = [pc EXCEPT ![p] = "over"] /\ verdict' = [verdict EXCEPT ![p] = v]
Say(p, s) == hist' = IF Emit THEN Append(hist, [p |-> p, s |-> s]) ELSE hist
Put(p, f, v) == dir' = [dir EXCEPT ![D(p)] = [@ EXCEPT ![f] = v]]
Same == UNCHANGED <<app, dir, inst>>
\* it goes on if c, or fails
If(c, p, act, next) == IF c THEN act /\ Go(p, next) ELSE Same /\ Stop(p, "failed")

Start(p) == pc[p] = "off" /\ Same /\ Go(p, "clear")
Clear(p) == pc[p] = "clear" /\ dir' = [q \in Runs |-> Empty] /\ UNCHANGED <<app, inst>> /\ Go(p, "mkdir")
Mkdir(p) == pc[p] = "mkdir" /\ Put(p, "there", TRUE) /\ UNCHANGED <<app, inst>> /\ Go(p, "arc")
Arc(p)   == pc[p] = "arc" /\ If(My(p).there, p, Put(p, "arc", Whole(p)) /\ UNCHANGED <<app, inst>>, "sum")
Sum(p)   == pc[p] = "sum" /\ If(My(p).there, p, Put(p, "sum", IF p \in sound THEN Whole(p) ELSE Part) /\ UNCHANGED <<app, inst>>, "ext")
Ext(p)   == pc[p] = "ext" /\ If(My(p).arc # Gone, p, Put(p, "ext", Part) /\ UNCHANGED <<app, inst>>, "ext2")
\* a file that is gone is written all the same, but nobody sees it
Ext2(p)  == /\ pc[p] = "ext2"
            /\ IF My(p).ext = Gone THEN Same ELSE Put(p, "ext", Whole(IF My(p).arc = Gone THEN p ELSE My(p).arc.c)) /\ UNCHANGED <<app, inst>>
            /\ Go(p, "check")
Check(p) == pc[p] = "check" /\ If(My(p).ext.k = "whole" /\ My(p).sum = [My(p).ext EXCEPT !.x = FALSE], p, Same, "chmod")
Chmod(p) == pc[p] = "chmod" /\ If(My(p).ext # Gone, p, Put(p, "ext", [My(p).ext EXCEPT !.x = TRUE]) /\ UNCHANGED <<app, inst>>, "rename")
Rename(p) == pc[p] = "rename" /\ If(My(p).ext # Gone, p, app' = My(p).ext /\ Put(p, "ext", Gone) /\ inst' = inst \cup {p}, "clean")
Clean(p) == pc[p] = "clean" /\ dir' = [q \in Runs |-> Empty] /\ UNCHANGED <<app, inst>> /\ Go(p, "finish")
Finish(p) == pc[p] = "finish" /\ Same /\ Stop(p, "ok")
Kill(p)  == doom[p] \in {"any", pc[p]} /\ pc[p] \notin {"off", "over"} /\ Same /\ Stop(p, "killed")

Doing(p) == \/ Start(p) \/ Clear(p) \/ Mkdir(p) \/ Arc(p) \/ Sum(p) \/ Ext(p) \/ Ext2(p) \/ Check(p) \/ Chmod(p) \/ Rename(p)
            \/ Clean(p) \/ Finish(p)

Next == /\ \E p \in Runs : /\ \/ Doing(p) /\ doom[p] # pc[p] /\ Say(p, IF pc[p] = "off" THEN "start" ELSE pc[p])
                              \/ Kill(p) /\ Say(p, "kill")
                           /\ torn' = (torn \/ (app' # app /\ (app' # [k |-> "whole", c |-> p, x |-> TRUE] \/ p \notin sound)))
        /\ UNCHANGED <<sound, doom>>

Spec == Init /\ [][Next]_vars

InvApp == app.k = "whole" /\ app.x /\ app.c \in {0} \cup sound
InvSuccess == \A p \in Runs : verdict[p] = "ok" => p \in inst /\ p \in sound

R == INSTANCE RaceReg WITH val <- app.c, busy <- {p \in Runs : pc[p] \notin {"off", "over"}}, First <- 0, did <- inst
Refines == R!RSpec


Over == \A p \in Runs : pc[p] = "over"
EmitLong == ~Emit \/ ~Over \/ PrintT("HIST " \o ToJson(Append(hist, [torn |-> torn, sound |-> [p \in Runs |-> p \in sound]])))
=============================================================================
