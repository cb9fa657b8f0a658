---------------------------- MODULE TerminalSteps ----------------------------
(* The same step by step: every call that changes the modes or writes to the   *)
(* screen is a step of its own, the interrupt key may be pressed between any    *)
(* two of them, and what it does depends on the modes and on who listens.  It   *)
(* refines Terminal and is the source of the histories of the real program.     *)
EXTENDS Terminal, TLC, Json

CONSTANTS Cmds, Keys, MaxLen, Emit

VARIABLES run,      \* cmd; first; tiny: the terminal is too small for windows
          tiny,     \* the terminal is too small now
          pc,
          n,        \* questions left; in windows, 1: the vault is damaged
          saved,    \* modes remembered
          listens,  \* the application gives the terminal back when interrupted
          hist

vars == <<run, tiny, pc, n, saved, listens, hist, at, modes, screen>>

Runs == {r \in [cmd : Cmds, first : BOOLEAN, tiny : BOOLEAN] :
            /\ r.first => r.cmd \in {"list", "overview", "details", "gui"}
            /\ r.tiny => r.cmd = "gui"}

Init == /\ run \in Runs
        /\ tiny = run.tiny
        /\ pc = "start"
        /\ n = 0
        /\ saved = "none"
        /\ listens = FALSE
        /\ hist = << >>
        /\ AInit

Say(x) == Len(hist) < MaxLen /\ hist' = Append(hist, x)
Quiet == UNCHANGED hist

GoTo(p) == pc' = p /\ at' = "working"
Ending(p) == pc' = p /\ at' = "ended"

\* where the run goes on with its work
WorkPc == CASE Prompts(run.cmd) -> "p.save"
          [] run.cmd = "gui" -> "w.save"
          [] OTHER -> "finish"

Start == /\ pc = "start"
         /\ n' = IF Dialogs(run) THEN 4 ELSE IF run.cmd = "update" THEN 1 ELSE 0
         /\ pc' = IF n' > 0 THEN "ask" ELSE WorkPc
         /\ Quiet
         /\ UNCHANGED <<run, tiny, saved, listens, at, modes, screen>>

Ask == /\ pc = "ask" /\ pc' = "asked" /\ at' = "question" /\ Quiet
       /\ UNCHANGED <<run, tiny, n, saved, listens, modes, screen>>

Answer(x) == /\ pc = "asked"
             /\ LET m == Left(run, n, x) IN n' = m /\ GoTo(IF m > 0 THEN "ask" ELSE WorkPc)
             /\ Say(x)
             /\ UNCHANGED <<run, tiny, saved, listens, modes, screen>>

\* -- the password
PSave    == pc = "p.save" /\ GoTo("p.listen") /\ saved' = modes /\ Quiet /\ UNCHANGED <<run, tiny, n, listens, modes, screen>>
PListen  == pc = "p.listen" /\ GoTo("p.silence") /\ listens' = TRUE /\ Quiet /\ UNCHANGED <<run, tiny, n, saved, modes, screen>>
PSilence == pc = "p.silence" /\ pc' = "p.read" /\ at' = "prompt" /\ modes' = "silent" /\ Quiet /\ UNCHANGED <<run, tiny, n, saved, listens, screen>>
PType(x) == pc = "p.read" /\ Say(x) /\ UNCHANGED <<run, tiny, pc, n, saved, listens, at, modes, screen>>
PEnter(x) == pc = "p.read" /\ GoTo("p.restore") /\ Say(x) /\ UNCHANGED <<run, tiny, n, saved, listens, modes, screen>>
PRestore == pc = "p.restore" /\ GoTo("p.deaf") /\ modes' = saved /\ Quiet /\ UNCHANGED <<run, tiny, n, saved, listens, screen>>
PDeaf    == pc = "p.deaf" /\ GoTo("finish") /\ listens' = FALSE /\ Quiet /\ UNCHANGED <<run, tiny, n, saved, modes, screen>>

\* -- the windows
WSave  == pc = "w.save" /\ GoTo("w.raw") /\ saved' = modes /\ Quiet /\ UNCHANGED <<run, tiny, n, listens, modes, screen>>
WRaw   == pc = "w.raw" /\ GoTo("w.take") /\ modes' = "raw" /\ Quiet /\ UNCHANGED <<run, tiny, n, saved, listens, screen>>
WTake  == pc = "w.take" /\ GoTo("w.draw") /\ screen' = "ours" /\ Quiet /\ UNCHANGED <<run, tiny, n, saved, listens, modes>>
WDraw  == pc = "w.draw" /\ (IF tiny THEN GoTo("w.leave") ELSE pc' = "w.wait" /\ at' = "window")
          /\ Quiet /\ UNCHANGED <<run, tiny, n, saved, listens, modes, screen>>
\* the interrupt key is a key like any other
WKey(x) == pc = "w.wait" /\ Say(x) /\ UNCHANGED <<run, tiny, pc, n, saved, listens, at, modes, screen>>
\* the vault is damaged: a key that makes the application read it is the last
WHurt == pc = "w.wait" /\ n' = 1 /\ Say([a |-> "Hurt"]) /\ UNCHANGED <<run, tiny, pc, saved, listens, at, modes, screen>>
WFail(x) == pc = "w.wait" /\ n = 1 /\ GoTo("w.leave") /\ Say(x) /\ UNCHANGED <<run, tiny, n, saved, listens, modes, screen>>
WResize(t) == /\ pc = "w.wait" /\ GoTo("w.draw") /\ tiny' = t /\ Say([a |-> "Resize", tiny |-> t])
              /\ UNCHANGED <<run, n, saved, listens, modes, screen>>
WQuit  == pc = "w.wait" /\ GoTo("w.leave") /\ Say([a |-> "Quit"]) /\ UNCHANGED <<run, tiny, n, saved, listens, modes, screen>>
WLeave == pc = "w.leave" /\ GoTo("w.restore") /\ screen' = "theirs" /\ Quiet /\ UNCHANGED <<run, tiny, n, saved, listens, modes>>
WRestore == pc = "w.restore" /\ GoTo("finish") /\ modes' = saved /\ Quiet /\ UNCHANGED <<run, tiny, n, saved, listens, screen>>

Finish == pc = "finish" /\ Ending("end") /\ Quiet /\ UNCHANGED <<run, tiny, n, saved, listens, modes, screen>>

\* the interrupt key: the kernel ends the process unless the modes say that it is
\* a key like any other, or unless the application listens, which gives the
\* terminal back and ends then.  (The application is taken not to silence the
\* terminal between its own giving back and its end.)
Interrupt == /\ pc \notin {"end", "struck"}
             /\ Emit => at # "working"
             /\ modes # "raw"
             /\ Ending(IF at = "working" THEN "struck" ELSE "end")
             /\ modes' = IF listens THEN saved ELSE modes
             /\ IF at = "working" THEN Quiet ELSE Say([a |-> "Interrupt"])
             /\ UNCHANGED <<run, tiny, n, saved, listens, screen>>

Next == \/ Start \/ Ask
        \/ \E y \in BOOLEAN : Answer([a |-> "Answer", yes |-> y])
        \/ Answer([a |-> "Eof"])
        \/ PSave \/ PListen \/ PSilence \/ PType([a |-> "Type"]) \/ PType([a |-> "Eof"]) \/ PRestore \/ PDeaf
        \/ \E k \in {"right", "wrong"} : PEnter([a |-> "Enter", pw |-> k])
        \/ WSave \/ WRaw \/ WTake \/ WDraw \/ WLeave \/ WRestore \/ WQuit
        \/ \E k \in Keys : WKey([a |-> "Key", k |-> k])
        \/ WHurt \/ WFail([a |-> "Key", k |-> "Open"])
        \/ \E t \in BOOLEAN : WResize(t)
        \/ Finish \/ Interrupt

Spec == Init /\ [][Next]_vars

\* the windows are only there while the interrupt key is a key like any other
InvRaw == screen = "ours" => modes = "raw"

Refines == ASpec

\* every history is allowed by the places of Terminal
RECURSIVE Walk(_, _)
Walk(ps, h) == IF h = << >> THEN ps ELSE Walk(UNION {After(run, p, Head(h)) : p \in ps}, Tail(h))
\* (a run that is struck while it works has not come as far)
InvPlaces == at # "working" /\ pc # "struck" => \E p \in Walk(Begin(run), hist) : p.at = at /\ (p.at \in {"question", "window"} => p.n = n)

View == <<run, tiny, pc, n, saved, listens, at, modes, screen>>
EmitLong == ~Emit \/ pc # "end" \/ PrintT("HIST " \o ToJson(<<run>> \o hist))
=============================================================================
