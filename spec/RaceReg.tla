------------------------------- MODULE RaceReg -------------------------------
(* A register with several writers at the same time: the settings, or the     *)
(* installed application.  A write takes effect at one moment of its run, or  *)
(* (failed or killed) not at all; nothing else changes the register.          *)
CONSTANTS Runs, First
VARIABLES val, busy, did       \* did: the runs that have taken effect

rvars == <<val, busy, did>>

RInit == val = First /\ busy = {} /\ did = {}
Begin(p) == p \notin busy /\ p \notin did /\ busy' = busy \cup {p} /\ UNCHANGED <<val, did>>
Take(p) == p \in busy /\ val' = p /\ did' = did \cup {p} /\ UNCHANGED busy
End(p) == p \in busy /\ busy' = busy \ {p} /\ UNCHANGED <<val, did>>

RSpec == RInit /\ [][\E p \in Runs : Begin(p) \/ Take(p) \/ End(p)]_rvars
=============================================================================
