------------------------------ MODULE ReachSteps ------------------------------
(* The same, tick by tick: the server goes on or stays silent, the application *)
(* gives up when it has been silent for as long as the timeout says.          *)
EXTENDS Reach, TLC, Json

CONSTANTS Cmds, Ts, Budget, Emit, MaxLen

VARIABLES run, ex, cur, idle, clock, over, doom, oks

vars == <<run, ex, cur, idle, clock, over, doom, oks>>

Runs == {[cmd |-> c, first |-> f, t1 |-> IF f THEN 1 ELSE t, t2 |-> t, zero |-> z] :
            c \in Cmds, f \in BOOLEAN, t \in Ts, z \in BOOLEAN}

\* doom: where the server falls silent for good
Init == /\ run \in {r \in Runs : (r.first => r.cmd \in {"list", "gui"}) /\ (~r.first => ~r.zero)}
        /\ ex = << >>       \* exchanges that are over: the pauses
        /\ cur = << >>      \* pauses of the present one
        /\ idle = 0
        /\ clock = 0
        /\ over = FALSE
        /\ oks = << >>
        /\ doom \in {<<k, p>> : k \in 1..IF run.cmd = "update" THEN 4 ELSE IF run.first THEN 2 ELSE 1, p \in 1..Points} \cup {<<0, 0>>}

k == Len(ex) + 1
T == Limit(run, k)
Doomed == doom = <<k, Len(cur) + 1>>

Done(ps, ok) == /\ ex' = Append(ex, ps)
                /\ oks' = Append(oks, ok)
                /\ cur' = << >>
                /\ idle' = 0
                /\ over' = ~More(run, k, ok)

Tick == /\ idle < T
        /\ Doomed \/ (clock < Budget /\ idle + 1 < T)
        /\ idle' = idle + 1
        /\ clock' = clock + 1
        /\ UNCHANGED <<ex, cur, over, oks>>

GoesOn == /\ ~Doomed
          /\ LET ps == Append(cur, idle)
             IN  IF Len(ps) = Points THEN Done(ps, TRUE) ELSE cur' = ps /\ idle' = 0 /\ UNCHANGED <<ex, over, oks>>
          /\ UNCHANGED clock

GivesUp == idle = T /\ Done(Append(cur, idle), FALSE) /\ UNCHANGED clock

Next == ~over /\ (Tick \/ GoesOn \/ GivesUp) /\ UNCHANGED <<run, doom>>

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InvIdle == idle <= T
InvOutcome == over => LET o == Outcome(run, ex, 1) IN o.time = clock /\ o.oks = oks
InvGaveUp == over => \A n \in 1..Len(ex) : ~oks[n] <=> (\E p \in 1..Len(ex[n]) : ex[n][p] >= Limit(run, n))
Ends == <>over

EmitLong == ~Emit \/ ~over \/ PrintT("HIST " \o ToJson(<<run>> \o ex \o <<doom>>))
=============================================================================
