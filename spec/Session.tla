------------------------------- MODULE Session -------------------------------
(* A session of the application over vaults that change on disk.              *)
(*                                                                            *)
(* disk    what is stored: vault -> [pw, prof, items]                         *)
(*         pw     its master password                                         *)
(*         prof   "good", or which of the vault's encrypted keys is altered   *)
(*         items  set of items; tamper is the set of encrypted parts of the   *)
(*                item ("k" keys, "d" details, "o" overview) that are altered *)
(* loaded  the vault validated last, with its password and profile as they    *)
(*         were then: [v, pw, prof], v = "" at the start                      *)
(* open    whether the session is unlocked                                    *)
(* shown   the items of the session                                           *)
(* ret     the expected result of the last operation                          *)
EXTENDS Vault

VARIABLES disk, loaded, open, shown, ret

svars == <<disk, loaded, open, shown, ret>>

-----------------------------------------------------------------------------
(* Queries, on the items of the session *)

Matching(c, q, t) == MatchingIn(shown, c, q, t)
CountOf(c, t) == CountIn(shown, c, t)
ItemOf(uid, t) == ItemIn(shown, uid, t)

-----------------------------------------------------------------------------
(* Operations *)

SInit(d) == /\ disk = d
            /\ loaded = [v |-> "", pw |-> "", prof |-> "good"]
            /\ open = FALSE
            /\ shown = {}
            /\ ret = [op |-> "none"]

Validate(v) == /\ loaded' = [v |-> v, pw |-> disk[v].pw, prof |-> disk[v].prof]
               /\ ret' = [op |-> "Validate", ok |-> TRUE]
               /\ UNCHANGED <<disk, open, shown>>

Accepts(pw) == pw = loaded.pw /\ loaded.prof = "good"

\* the vault must be the one validated last, as in all interfaces of the application
Unlock(v, pw) ==
    /\ loaded.v = v
    /\ IF Accepts(pw)
       THEN /\ open' = TRUE
            /\ shown' = Contents(disk[v])
            /\ ret' = [op |-> "Unlock", ok |-> TRUE]
       ELSE /\ ret' = [op |-> "Unlock", ok |-> FALSE]
            /\ UNCHANGED <<open, shown>>
    /\ UNCHANGED <<disk, loaded>>

Lock == /\ open' = FALSE
        /\ shown' = {}
        /\ ret' = [op |-> "Lock"]
        /\ UNCHANGED <<disk, loaded>>

\* the vault changes on disk (synchronisation, another program, an attacker)
Disk(v, to) == /\ disk' = [disk EXCEPT ![v] = to]
               /\ ret' = [op |-> "Disk"]
               /\ UNCHANGED <<loaded, open, shown>>

Query(r) == /\ ret' = r
            /\ UNCHANGED <<disk, loaded, open, shown>>
=============================================================================
