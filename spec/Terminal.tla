------------------------------- MODULE Terminal -------------------------------
(* Whose the terminal is.  It belongs to the user, who has set its modes (echo, *)
(* line editing, special characters) and has something on its screen.  The     *)
(* application borrows it: the modes while a password is asked for, modes and   *)
(* screen while its windows are shown.  Once it has ended, however that came,   *)
(* everything is the user's again.                                             *)
EXTENDS Integers, Sequences

\* what a run asks for, by command, before it does its work; first: there are no settings
Dialogs(run) == run.cmd = "configure" \/ run.first
Prompts(cmd) == cmd \in {"list", "overview", "details"}

\* places: [at, n]; n: questions that are left (5: the path of the first); in
\* windows, 1: the vault has been damaged, so that any key may be the last
Place(a, n) == [at |-> a, n |-> n]
Ended == Place("ended", 0)
\* a terminal may be too small for the windows
Windows(n, tiny) == {Place("window", n)} \cup IF tiny THEN {Ended} ELSE {}
Work(run) == CASE Prompts(run.cmd) -> {Place("prompt", 0)}
               [] run.cmd = "gui" -> Windows(0, run.tiny)
               [] OTHER -> {Ended}
Begin(run) == CASE Dialogs(run) -> {Place("question", 4)}
                [] run.cmd = "update" -> {Place("question", 1)}
                [] OTHER -> Work(run)

\* how many questions are left after an answer
Left(run, n, x) == IF Dialogs(run) /\ n = 4 /\ x.a = "Answer" /\ x.yes THEN 5
                   ELSE IF n = 5 THEN 3 ELSE n - 1

\* the places a run may be at after the user's action x at place p
After(run, p, x) ==
    CASE p.at = "ended" -> {p}
      [] p.at \in {"question", "prompt"} /\ x.a = "Interrupt" -> {Ended}
      [] p.at = "question" /\ x.a \in {"Answer", "Eof"} ->
           LET n == Left(run, p.n, x) IN IF n > 0 THEN {Place("question", n)} ELSE Work(run)
      [] p.at = "prompt" /\ x.a = "Enter" -> {Ended}
      \* the end of the input may be ignored
      [] p.at = "prompt" /\ x.a = "Eof" -> {p, Ended}
      [] p.at = "window" /\ x.a = "Quit" -> {Ended}
      [] p.at = "window" /\ x.a = "Resize" -> Windows(p.n, x.tiny)
      [] p.at = "window" /\ x.a = "Hurt" -> {Place("window", 1)}
      [] p.at = "window" /\ x.a = "Key" /\ p.n = 1 -> {p, Ended}
      [] OTHER -> {p}

\* modes and screen, by place
ModesAt(a) == CASE a = "prompt" -> "silent" [] a = "window" -> "raw" [] OTHER -> "theirs"
ScreenAt(a) == IF a = "window" THEN "ours" ELSE "theirs"

VARIABLES at, modes, screen

TypeOK == /\ at \in {"working", "question", "prompt", "window", "ended"}
          /\ modes \in {"theirs", "silent", "raw"}
          /\ screen \in {"theirs", "ours"}

AInit == at = "working" /\ modes = "theirs" /\ screen = "theirs"

\* while it works the application may take the terminal and give it back
ANext == /\ at # "ended"
         /\ at' \in {"working", "question", "prompt", "window", "ended"}
         /\ modes' \in {"theirs", "silent", "raw"}
         /\ screen' \in {"theirs", "ours"}
         /\ at' # "working" => modes' = ModesAt(at') /\ screen' = ScreenAt(at')
ASpec == AInit /\ [][ANext]_<<at, modes, screen>>

InvBack == at = "ended" => modes = "theirs" /\ screen = "theirs"
InvWaiting == at # "working" => modes = ModesAt(at) /\ screen = ScreenAt(at)
=============================================================================
