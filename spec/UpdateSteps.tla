----------------------------- MODULE UpdateSteps -----------------------------
(* Updating step by step: the server's answers may differ from request to     *)
(* request, every step may fail, the process may be killed before any step,   *)
(* and the next update finds what was left behind.  It refines UpdateReg, and *)
(* is the source of the histories of the real program.                        *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets

CONSTANTS Blobs, MaxLen, Emit, Weigh, Only   \* Only: which releases (and answers) to look at: "all", "refused"

\* contents of a file: <<>> none, <<0>> incomplete, <<b>> complete
None == << >>
Part == <<0>>
File == {None, Part} \cup {<<b>> : b \in Blobs}

\* fate: where the update under way is going to fail; Anywhere: anywhere
VARIABLES app, cache, pc, rel, fate, verdict, hist

vars == <<app, cache, pc, rel, fate, verdict, hist>>

\* a release: what the server says first and when asked again, what the user
\* says, the application in the archive (0: there is none), whether the archive
\* is damaged or tries to leave the place it is extracted in, what the checksum
\* belongs to
Arcs == {"ok", "cut", "evil", "odd"}
Rels == [newer1 : BOOLEAN, newer2 : BOOLEAN, yes : BOOLEAN, has : Blobs \cup {0}, arc : Arcs, sum : Blobs \cup {0}]
NoRel == [newer1 |-> FALSE, newer2 |-> FALSE, yes |-> FALSE, has |-> 0, arc |-> "ok", sum |-> 0]

Good(r) == IF r.newer1 /\ r.newer2 /\ r.yes /\ r.has = r.sum /\ r.has # 0 THEN {r.has} ELSE {}

Pcs == {"ask", "recheck", "clear", "clear2", "mkdir", "arc", "arc2", "sum", "sum2", "extract", "extract2", "validate", "chmod", "rename", "clean", "finish"}
Hows == {"kill", "halfkill", "eio", "dead", "full", "net"}
CanFail(how, at) == IF how = "net" THEN at \in {"ask", "recheck", "arc2", "sum2"} ELSE at \notin {"ask", "recheck"}
Anywhere == [how |-> "any", at |-> "any", n |-> 0]
Late == {"extract2", "validate", "chmod", "rename", "clean"}
SoundRel(r) == Good(r) # {} /\ r.arc = "ok"
Fates(r) == IF ~Weigh THEN {Anywhere}
            ELSE IF SoundRel(r)
            THEN {[how |-> "none", at |-> "none", n |-> k] : k \in 1..60}
                 \cup {f \in [how : Hows, at : Pcs, n : 1..4] : CanFail(f.how, f.at) /\ (f.n = 1 \/ f.at \in Late)}
            ELSE {[how |-> "none", at |-> "none", n |-> k] : k \in 1..(IF Good([r EXCEPT !.sum = 1, !.has = 1]) # {} /\ r.arc = "ok" THEN 16 ELSE 8)}
                 \cup {f \in [how : {"kill", "eio"}, at : {"extract2", "validate"}, n : {1}] : TRUE}
RelSet == IF Only = "refused" THEN {r \in Rels : r.newer1 /\ r.newer2 /\ ~r.yes /\ r.has = 1 /\ r.sum = 1 /\ r.arc = "ok"}
          ELSE IF ~Weigh THEN Rels
          ELSE {r \in Rels : IF r.newer1 /\ r.newer2 /\ r.yes THEN r.sum = r.has \/ r.arc = "ok" ELSE r.has = 1 /\ r.sum = 1 /\ r.arc = "ok"}

Empty == [dir |-> FALSE, ext |-> None, arc |-> None, sum |-> None]

Init == /\ app = [c |-> 0, x |-> TRUE]
        /\ cache = Empty
        /\ pc = "idle"
        /\ rel = NoRel
        /\ fate = Anywhere
        /\ verdict = "none"
        /\ hist = << >>

Say(how, at) == hist' = Append(hist, [a |-> "Update", rel |-> rel, how |-> how, at |-> at])
Quiet == UNCHANGED hist

Stop(v) == pc' = "idle" /\ verdict' = v
Go(p) == pc' = p /\ UNCHANGED verdict

Begin(r, f) == /\ pc = "idle"
            /\ rel' = r
            /\ fate' = f
            /\ Go("ask")
            /\ UNCHANGED <<app, cache>>
            /\ Quiet

\* one step of an update; Refuse: it ends here for a reason in the release
Refuse == Stop("failed") /\ Say("none", "") /\ UNCHANGED <<app, cache>>

Ask == pc = "ask" /\ IF rel.newer1 /\ rel.yes THEN Go("recheck") /\ Quiet /\ UNCHANGED <<app, cache>> ELSE Refuse
Recheck == pc = "recheck" /\ IF rel.newer2 THEN Go("clear") /\ Quiet /\ UNCHANGED <<app, cache>> ELSE Refuse
ClearExt == pc = "clear" /\ cache' = [cache EXCEPT !.ext = None] /\ Go("clear2") /\ Quiet /\ UNCHANGED app
ClearAll == pc = "clear2" /\ cache' = Empty /\ Go("mkdir") /\ Quiet /\ UNCHANGED app
Mkdir == pc = "mkdir" /\ cache' = [cache EXCEPT !.dir = TRUE] /\ Go("arc") /\ Quiet /\ UNCHANGED app
Arc == pc = "arc" /\ cache' = [cache EXCEPT !.arc = Part] /\ Go("arc2") /\ Quiet /\ UNCHANGED app
Arc2 == pc = "arc2" /\ cache' = [cache EXCEPT !.arc = IF rel.arc = "cut" \/ rel.has = 0 THEN Part ELSE <<rel.has>>] /\ Go("sum") /\ Quiet /\ UNCHANGED app
Sum == pc = "sum" /\ cache' = [cache EXCEPT !.sum = Part] /\ Go("sum2") /\ Quiet /\ UNCHANGED app
Sum2 == pc = "sum2" /\ cache' = [cache EXCEPT !.sum = IF rel.sum = 0 THEN Part ELSE <<rel.sum>>] /\ Go("extract") /\ Quiet /\ UNCHANGED app
Extract == /\ pc = "extract"
           /\ IF rel.arc = "evil" THEN Refuse
              ELSE /\ cache' = [cache EXCEPT !.ext = IF rel.has = 0 THEN None ELSE Part]
                   /\ Go("extract2") /\ Quiet /\ UNCHANGED app
Extract2 == /\ pc = "extract2"
            /\ IF rel.arc = "cut" THEN Refuse
               ELSE /\ cache' = [cache EXCEPT !.ext = cache.arc]
                    /\ Go("validate") /\ Quiet /\ UNCHANGED app
Validate == /\ pc = "validate"
            /\ IF cache.ext \in {None, Part} \/ cache.ext # cache.sum THEN Refuse
               ELSE Go("chmod") /\ Quiet /\ UNCHANGED <<app, cache>>
Chmod == pc = "chmod" /\ Go("rename") /\ Quiet /\ UNCHANGED <<app, cache>>
Rename == /\ pc = "rename"
          /\ app' = [c |-> cache.ext[1], x |-> TRUE]
          /\ cache' = [cache EXCEPT !.ext = None]
          /\ Go("clean") /\ Quiet
Clean == pc = "clean" /\ cache' = Empty /\ Go("finish") /\ Quiet /\ UNCHANGED app
Finish == pc = "finish" /\ Stop("ok") /\ Say("none", "") /\ UNCHANGED <<app, cache>>

Doing == \/ Ask \/ Recheck \/ ClearExt \/ ClearAll \/ Mkdir \/ Arc \/ Arc2 \/ Sum \/ Sum2 \/ Extract \/ Extract2
         \/ Validate \/ Chmod \/ Rename \/ Clean \/ Finish

\* an operation fails, or the process is killed
Fail(how) == /\ pc # "idle"
             /\ CanFail(how, pc)
             /\ fate = Anywhere \/ (fate.how = how /\ fate.at = pc)
             /\ Stop(IF how \in {"kill", "halfkill"} THEN "killed" ELSE "failed")
             /\ Say(how, pc)
             /\ UNCHANGED <<app, cache>>

Next == /\ Len(hist) < MaxLen
        /\ \/ \E r \in RelSet : \E f \in Fates(r) : Begin(r, f)
           \/ ((fate.at # pc /\ Doing) \/ \E h \in Hows : Fail(h)) /\ UNCHANGED <<rel, fate>>

Spec == Init /\ [][Next]_vars

\* C11
InvWhole == app.x /\ app.c \in Blobs \cup {0}
InvSuccess == verdict = "ok" /\ pc = "idle" => Good(rel) = {app.c}
\* C12
InvClean == verdict = "ok" /\ pc = "idle" => cache = Empty
\* C13
StepConsent == [][app' # app => rel.yes /\ rel.newer1 /\ rel.newer2]_vars
StepQuiet == [][cache' # cache => rel.yes /\ rel.newer1 /\ rel.newer2]_vars
\* C12: whatever was left behind, a sound release gets installed if nothing fails
ENABLEDInstall == pc \notin {"idle"} => ENABLED Doing

R == INSTANCE UpdateReg WITH good <- Good(rel), busy <- (pc # "idle")
Refines == R!RSpec

View == <<app, cache, pc, rel, verdict>>
EmitLong == ~Emit \/ Len(hist) < MaxLen \/ PrintT("HIST " \o ToJson(hist))
=============================================================================
