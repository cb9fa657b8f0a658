------------------------------ MODULE UpdateReg ------------------------------
(* The installed application as a register: an update replaces it in one      *)
(* moment by a verified application, or not at all.                           *)
CONSTANT Blobs
VARIABLES app, good, busy      \* good: what the update under way may install

rvars == <<app, good, busy>>

RInit == app = [c |-> 0, x |-> TRUE] /\ good = {} /\ busy = FALSE
Begin(s) == ~busy /\ busy' = TRUE /\ good' = s /\ UNCHANGED app
Install == busy /\ (\E c \in good : app' = [c |-> c, x |-> TRUE]) /\ UNCHANGED <<good, busy>>
End == busy /\ busy' = FALSE /\ UNCHANGED <<app, good>>

RSpec == RInit /\ [][(\E s \in SUBSET Blobs : Begin(s)) \/ Install \/ End]_rvars
=============================================================================
