----------------------------- MODULE IntactSteps -----------------------------
(* The same file by file: the profile is read before the password is asked      *)
(* for, the bands when it was right, one by one; what was read of the items     *)
(* before a damaged file was found is not shown.                                *)
EXTENDS Intact, TLC, Json

CONSTANTS Cmds, Bands, Emit, MaxLen

VARIABLES cmd, hurt,
          pc,       \* "off", "profile", "prompt", "bands", "open"
          got,      \* files read, whole
          shown,    \* bands whose items are shown
          t,        \* the attempt
          last,     \* what came of the last attempt
          fits,     \* everything so far was as Intact says
          hist

vars == <<cmd, hurt, pc, got, shown, t, last, fits, hist>>

Files == {"profile"} \cup Bands

Init == /\ cmd \in Cmds
        /\ hurt = {}
        /\ pc = "off"
        /\ got = {}
        /\ shown = {}
        /\ t = Attempt({})
        /\ last = "none"
        /\ fits = TRUE
        /\ hist = << >>

Say(x) == Len(hist) < MaxLen /\ hist' = Append(hist, x)
Quiet == UNCHANGED hist

\* the world; histories for the real program change files only while it waits
Changes == {n \in 1..Len(hist) : n > Len(hist) - 2 /\ hist[n].a \in {"Hurt", "Mend"}}
Change == Emit => pc \in {"off", "prompt", "open"} /\ Cardinality(Changes) < 2
Hurt(f) == /\ Change /\ f \notin hurt /\ hurt' = hurt \cup {f} /\ t' = Seen(t, hurt \cup {f}) /\ Say([a |-> "Hurt", f |-> f])
           /\ UNCHANGED <<cmd, pc, got, shown, last, fits>>
Mend(f) == /\ Change /\ f \in hurt /\ hurt' = hurt \ {f} /\ t' = Seen(t, hurt \ {f}) /\ Say([a |-> "Mend", f |-> f])
           /\ UNCHANGED <<cmd, pc, got, shown, last, fits>>

Refuse(p, ok) == pc' = p /\ last' = "refused" /\ fits' = (fits /\ ok) /\ shown' = {} /\ got' = IF p = "off" THEN {} ELSE got

Start == /\ pc = "off" /\ pc' = "profile" /\ t' = Attempt(hurt) /\ got' = {} /\ shown' = {} /\ Say([a |-> "Start"])
         /\ UNCHANGED <<cmd, hurt, last, fits>>
ReadProfile == /\ pc = "profile"
               /\ IF "profile" \in hurt THEN Refuse("off", MayEnd(t))
                  ELSE pc' = "prompt" /\ got' = {"profile"} /\ UNCHANGED <<shown, last, fits>>
               /\ Quiet /\ UNCHANGED <<cmd, hurt, t>>
Right == /\ pc = "prompt" /\ pc' = "bands" /\ Say([a |-> "Enter", right |-> TRUE])
         /\ UNCHANGED <<cmd, hurt, got, shown, t, last, fits>>
Wrong == /\ pc = "prompt" /\ Refuse(IF cmd = "gui" THEN "prompt" ELSE "off", "refused" \in Results(t, FALSE)) /\ Say([a |-> "Enter", right |-> FALSE])
         /\ UNCHANGED <<cmd, hurt, t>>
ReadBand(b) == /\ pc = "bands" /\ b \notin got
               /\ IF b \in hurt THEN Refuse("off", "refused" \in Results(t, TRUE))
                  ELSE got' = got \cup {b} /\ UNCHANGED <<pc, shown, last, fits>>
               /\ Quiet /\ UNCHANGED <<cmd, hurt, t>>
Open == /\ pc = "bands" /\ Bands \subseteq got
        /\ pc' = IF cmd = "gui" THEN "open" ELSE "off"
        /\ shown' = got \cap Bands
        /\ last' = "open" /\ fits' = (fits /\ "open" \in Results(t, TRUE))
        /\ Quiet /\ UNCHANGED <<cmd, hurt, got, t>>
Lock == /\ pc = "open" /\ pc' = "prompt" /\ got' = {"profile"} /\ shown' = {} /\ t' = Again(t, hurt) /\ Say([a |-> "Lock"])
        /\ UNCHANGED <<cmd, hurt, last, fits>>
Quit == /\ pc \in {"prompt", "open"} /\ cmd = "gui" /\ pc' = "off" /\ got' = {} /\ shown' = {} /\ Say([a |-> "Quit"])
        /\ UNCHANGED <<cmd, hurt, t, last, fits>>

Next == \/ \E f \in Files : Hurt(f) \/ Mend(f)
        \/ Start \/ ReadProfile \/ Right \/ Wrong \/ Open \/ Lock \/ Quit
        \/ \E b \in Bands : ReadBand(b)

Spec == Init /\ [][Next]_vars

InvFits == fits
\* what is shown is the whole vault
InvWhole == shown = {} \/ shown = Bands
InvRefused == last = "refused" => shown = {}
\* nothing but the right password and whole files opens
InvOpen == pc = "open" => got = Files /\ t.all = {}

View == <<cmd, hurt, pc, got, shown, t, last, fits>>
Bound == Emit \/ Len(hist) < MaxLen
EmitLong == ~Emit \/ Len(hist) < MaxLen \/ PrintT("HIST " \o ToJson(<<cmd>> \o hist))
===============================================================================
