-------------------------------- MODULE GuiMC --------------------------------
(* The terminal interface with a small vault: exhaustive check of its         *)
(* properties, and source of the key sequences typed into the real program.   *)
EXTENDS Gui, Json

CONSTANTS MaxLen, Emit, MaxScroll, Weigh, Many

VARIABLES hist, kind

vars == <<gvars, hist, kind>>

Secret(u) == "S" \o u \o "S"
D(u) == [form |-> <<[name |-> "f", value |-> Secret(u)]>>, sections |-> << >>, notes |-> Secret(u) \o "\n" \o Secret(u)]
St == [raw |-> "0", day |-> 0, sec |-> 0]
It(u, c, t, x) == [uid |-> u, cat |-> c, trashed |-> x, created |-> St, updated |-> St, title |-> t, titlec |-> <<97>>,
                   url |-> "", details |-> D(u), tamper |-> {}]
A == It("1", "001", "a", FALSE)
B == [It("2", "001", "b", FALSE) EXCEPT !.titlec = <<98>>]
C == It("3", "003", "", FALSE)
T == It("4", "001", "t", TRUE)
V(s) == [pw |-> "61", prof |-> "good", items |-> s]
Disks == IF Many THEN {V({A, B, C, T}), V({A, B}), V({}), V({T})} ELSE {V({A, B, C, T})}

Dims == {[w |-> 70, h |-> 12, fits |-> TRUE], [w |-> 70, h |-> 30, fits |-> TRUE]}

Init == /\ \E d \in Disks, dm \in Dims : GInit(d, dm)
        /\ hist = << >>
        /\ kind = "any"

LastOp == IF hist = << >> THEN [a |-> "", k |-> ""] ELSE hist[Len(hist)]

KeysIn == IF win = "prompt" THEN {"Enter", "Lock", "Tab"}
          ELSE {"Down", "Up", "Right", "Left", "Enter", "Tab", "q", "Lock", "Other"}

\* for random walks: how often which kind of step is chosen (by number)
Kinds == CASE win = "prompt" -> IF typed # "" THEN 1..5 ELSE 1..8
           [] OTHER -> 1..12
KindOf(n) ==
    CASE win = "prompt" /\ typed = "" -> IF n <= 4 THEN "right" ELSE IF n = 5 THEN "wrong" ELSE IF n = 6 THEN "Disk" ELSE IF n = 7 THEN "key" ELSE "Quit?"
      [] win = "prompt" -> IF n <= 4 THEN "Enter" ELSE "key"
      [] win = "error" -> IF n <= 9 THEN "Enter" ELSE "key"
      [] win = "main" -> IF n <= 3 THEN "Down" ELSE IF n = 4 THEN "Up" ELSE IF n <= 8 THEN "open" ELSE IF n = 9 THEN "Lock" ELSE IF n = 10 THEN "Disk" ELSE IF n = 11 THEN "Quit?" ELSE "key"
      [] win = "items" -> IF n <= 4 THEN "Down" ELSE IF n = 5 THEN "Up" ELSE IF n <= 8 THEN "Tab" ELSE IF n = 9 THEN "Lock" ELSE IF n = 10 THEN "back" ELSE "key"
      [] win = "details" -> IF n <= 3 THEN "Down" ELSE IF n = 4 THEN "Up" ELSE IF n <= 6 THEN "Right" ELSE IF n = 7 THEN "Left" ELSE IF n = 8 THEN "Tab" ELSE IF n = 9 THEN "Lock" ELSE "key"
      [] OTHER -> "none"
Fits(k, l) ==
    IF ~Weigh THEN TRUE
    ELSE CASE k = "right" -> l = [a |-> "Type", pw |-> "right"]
           [] k = "wrong" -> l = [a |-> "Type", pw |-> "wrong"]
           [] k = "Disk" -> l.a = "Disk"
           [] l.a # "Key" -> FALSE
           [] k = "key" -> l.k # "Quit"
           [] k = "open" -> l.k \in {"Enter", "Right"}
           [] k = "back" -> l.k \in {"q", "Left"}
           [] k = "Quit?" -> l.k = "Quit"
           [] OTHER -> l.k = k

Choose == /\ Weigh
          /\ kind = "any"
          /\ win # "gone"
          /\ \E n \in Kinds : kind' = KindOf(n) /\ (kind' # "Quit?" \/ Len(hist) > MaxLen \div 2)
          /\ UNCHANGED <<gvars, hist>>

Op(l) == /\ (Weigh => kind # "any")
         /\ Fits(kind, l)
         /\ hist' = Append(hist, l)
         /\ kind' = "any"

Next ==
    /\ Len(hist) < MaxLen
    /\ win # "gone"
    /\ \/ Choose
       \/ \E p \in {"right", "wrong"} :
             /\ win = "prompt"
             /\ typed = ""
             /\ Type(IF p = "right" THEN disk.pw ELSE "62")
             /\ Op([a |-> "Type", pw |-> p])
       \/ \E p \in {"right", "wrong"} :
             /\ ~Weigh
             /\ Paste(IF p = "right" THEN disk.pw ELSE "62")
             /\ Op([a |-> "Paste", pw |-> p])
       \/ \E k \in KeysIn \cup {"Quit"} : Key(k) /\ Op([a |-> "Key", k |-> k])
       \/ \E d \in Dims, back \in BOOLEAN : ~Weigh /\ dim.fits /\ Resize(d, back) /\ Op([a |-> "Resize"])
       \/ \E d \in Disks : d # disk /\ Change(d) /\ Op([a |-> "Disk"])

Spec == Init /\ [][Next]_vars

Small == org.x <= MaxScroll /\ org.y <= MaxScroll

-----------------------------------------------------------------------------
(* Properties of the design *)

Has(s, p) == \E k \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, k, k + Len(p) - 1) = p
OnScreen(t) == \/ \E n \in 1..Len(ShownRows) : Has(ShownRows[n], t)
               \/ \E n \in 1..Len(ShownPane) : Has(ShownPane[n], t)
Uids == {"1", "2", "3", "4"}

\* C09
InvSecrets == \A u \in Uids : OnScreen(Secret(u)) => win = "details" /\ Highlighted.uid = u
InvNothing == win \in {"prompt", "error"} => ShownRows = << >> /\ ShownPane = << >> /\ sess = {}
\* C05: locked means nothing is held
InvLocked == (win \in {"prompt", "error"}) => sess = {} /\ sel = << >>
\* C10: the highlighted row is on the screen, and described by the pane
InvMark == dim.fits =>
           /\ win = "main" /\ sess # {} => /\ ShownMark \in 0..(MainHeight - 1)
                                            /\ ShownRows[ShownMark + 1] = RowsOf(sess)[main.idx].text
           /\ Listed => /\ ShownMark \in 0..(ItemHeight - 1)
                        /\ ShownRows[ShownMark + 1] = TitleShown(Highlighted)
           /\ win = "items" => ShownPane[1] = CatName(Highlighted.cat)
           /\ win = "details" /\ org = NoScroll => ShownPane[1] = CatName(Highlighted.cat)
InvCount == Listed => RowsOf(sess)[main.idx].text
                        \in {CatNameOr \o " (" \o ToString(Len(sel)) \o ")" : CatNameOr \in {"All", "Trashed"} \cup {Categories[n].name : n \in 1..Len(Categories)}}
\* C01: as a property of steps
StepOpen == [][sess = {} /\ sess' # {} => LET l == hist'[Len(hist')] IN IF l.a = "Paste" THEN typed = "" /\ l.pw = "right" ELSE typed = disk.pw]_vars
\* C06: the session changes only by unlocking (to what is on disk) and locking
StepSess == [][sess' # sess => sess' = {} \/ sess' = Contents(disk)]_vars

View == <<gvars, kind>>

EmitAll == ~Emit \/ PrintT("HIST " \o ToJson(hist'))
EmitLong == ~Emit \/ (Len(hist) < MaxLen /\ win # "gone") \/ PrintT("HIST " \o ToJson(hist))
=============================================================================
