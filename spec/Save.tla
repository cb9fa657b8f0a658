-------------------------------- MODULE Save --------------------------------
(* The settings as a register: a save takes effect at one moment or not at    *)
(* all.  stored: the settings found by a run that starts now; want: those     *)
(* being saved; busy: a save is under way.                                    *)
CONSTANT Values
VARIABLES stored, want, busy

rvars == <<stored, want, busy>>

RInit == stored \in Values /\ want \in Values /\ busy = FALSE
Begin(c) == ~busy /\ busy' = TRUE /\ want' = c /\ UNCHANGED stored
Commit == busy /\ stored' = want /\ UNCHANGED <<want, busy>>
End == busy /\ busy' = FALSE /\ UNCHANGED <<stored, want>>        \* done, failed or killed
Edit(c) == ~busy /\ stored' = c /\ UNCHANGED <<want, busy>>       \* by hand

RSpec == RInit /\ [][(\E c \in Values : Begin(c) \/ Edit(c)) \/ Commit \/ End]_rvars
=============================================================================
