--------------------------------- MODULE Gui ---------------------------------
(* The terminal interface: windows, keys and what is on the screen.           *)
(*                                                                            *)
(* disk   the stored vault                                                    *)
(* sess   what the session holds (the contents of the vault when it was       *)
(*        unlocked), {} while it is locked                                    *)
(* typed  the text in the password prompt (hexadecimal)                       *)
(* win    "prompt", "error", "main", "items", "details" or "gone"             *)
(* main   [idx, top]: the highlighted row, the first row on the screen        *)
(* sel    the items listed beside, items [idx, top] like main                 *)
(* org    [x, y]: how far the revealed item is scrolled                       *)
(* dim    [w, h, fits]: the size of the terminal, FALSE: it changed           *)
EXTENDS Vault

VARIABLES disk, sess, typed, win, main, sel, items, org, dim

gvars == <<disk, sess, typed, win, main, sel, items, org, dim>>

Top == [idx |-> 1, top |-> 1]
NoScroll == [x |-> 0, y |-> 0]

-----------------------------------------------------------------------------
(* The rows of the main window *)

RowsOf(S) ==
    LET cs == SelectSeq([n \in 1..Len(Categories) |-> Categories[n].code], LAMBDA c : CountIn(S, c, FALSE) > 0)
        R(t, c, x, n) == [text |-> t \o " (" \o ToString(n) \o ")", cat |-> c, trashed |-> x]
    IN  (IF CountIn(S, "", FALSE) = 0 THEN << >>
         ELSE <<R("All", "", FALSE, CountIn(S, "", FALSE))>>
              \o [n \in 1..Len(cs) |-> R(CatName(cs[n]), cs[n], FALSE, CountIn(S, cs[n], FALSE))])
        \o (IF CountIn(S, "", TRUE) = 0 THEN << >> ELSE <<R("Trashed", "", TRUE, CountIn(S, "", TRUE))>>)

\* what a row opens, in list order
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN << >>
              ELSE LET f == CHOOSE x \in S : \A y \in S : ~ListedBefore(y, x) IN <<f>> \o InOrder(S \ {f})
Opened(row) == InOrder(MatchingIn(sess, row.cat, << >>, row.trashed))

-----------------------------------------------------------------------------
(* Lists: moving keeps the highlighted row in the window *)

MainHeight == dim.h - 8
ItemHeight == dim.h - 10

GoDown(l, len, height) ==
    IF l.idx >= len THEN l
    ELSE [idx |-> l.idx + 1, top |-> IF l.idx + 1 - l.top > height - 1 THEN l.top + 1 ELSE l.top]
GoUp(l) == IF l.idx <= 1 THEN l
           ELSE [idx |-> l.idx - 1, top |-> IF l.idx - 1 < l.top THEN l.idx - 1 ELSE l.top]

-----------------------------------------------------------------------------
(* What is on the screen *)

Left  == (dim.w - 2) \div 2               \* right edge of the list of items
Right == (dim.w - 2) \div 2 + 1           \* left edge of the pane beside

RECURSIVE NoTrail(_)
NoTrail(s) == IF Len(s) > 0 /\ Chr(s, Len(s)) = " " THEN NoTrail(SubSeq(s, 1, Len(s) - 1)) ELSE s

\* the part of a line in a window of width w scrolled by x
Part(s, x, w) == NoTrail(SubSeq(s, x + 1, IF x + w < Len(s) THEN x + w ELSE Len(s)))

\* the lines of a text: \n, \r\n and \r end a line
LinesOf(s) ==
    LET Ends(k) == Chr(s, k) = "\n" \/ (Chr(s, k) = "\r" /\ (k = Len(s) \/ Chr(s, k + 1) # "\n"))
        q == SelectSeq([k \in 1..Len(s) |-> k], Ends)
        From(n) == IF n = 1 THEN 1 ELSE q[n - 1] + 1
        To(n) == IF n > Len(q) THEN Len(s)
                 ELSE IF q[n] > 1 /\ Chr(s, q[n]) = "\n" /\ Chr(s, q[n] - 1) = "\r" THEN q[n] - 2 ELSE q[n] - 1
    IN  [n \in 1..(Len(q) + 1) |-> SubSeq(s, From(n), To(n))]

RECURSIVE NoEmptyEnd(_)
NoEmptyEnd(l) == IF Len(l) > 0 /\ l[Len(l)] = "" THEN NoEmptyEnd(SubSeq(l, 1, Len(l) - 1)) ELSE l

\* rows a..a+h-1 of lines, columns from x
Window(lines, x, a, w, h) ==
    NoEmptyEnd([n \in 1..(IF Len(lines) - a + 1 < h THEN (IF Len(lines) < a THEN 0 ELSE Len(lines) - a + 1) ELSE h) |->
                  Part(lines[a + n - 1], x, w)])

TitleShown(it) == IF it.title = "" THEN "<NO TITLE>" ELSE it.title

Listed == win \in {"items", "details"}
Highlighted == sel[items.idx]

ShownRows ==
    CASE win = "main" -> LET r == RowsOf(sess) IN Window([n \in 1..Len(r) |-> r[n].text], 0, main.top, dim.w - 2, MainHeight)
      [] Listed -> Window([n \in 1..Len(sel) |-> TitleShown(sel[n])], 0, items.top, Left - 2, ItemHeight)
      [] OTHER -> << >>

ShownMark ==
    CASE win = "main" /\ sess # {} -> main.idx - main.top
      [] Listed -> items.idx - items.top
      [] OTHER -> -1

ShownPane ==
    CASE win = "items" -> Window(LinesOf(ItemText(Highlighted, TRUE)), 0, 1, dim.w - 3 - Right, ItemHeight)
      [] win = "details" -> Window(LinesOf(ItemText(Highlighted, FALSE)), org.x, org.y + 1, dim.w - 3 - Right, ItemHeight)
      [] OTHER -> << >>

-----------------------------------------------------------------------------
GInit(d, dm) ==
    /\ disk = d
    /\ dim = dm
    /\ sess = {}
    /\ typed = ""
    /\ win = "prompt"
    /\ main = Top
    /\ sel = << >>
    /\ items = Top
    /\ org = NoScroll

Type(s) == /\ win = "prompt"
           /\ typed' = typed \o s
           /\ UNCHANGED <<disk, sess, win, main, sel, items, org, dim>>

Opens(t) == disk.prof = "good" /\ t = disk.pw

Submit(t) ==
    /\ typed' = ""
    /\ IF Opens(t)
       THEN /\ win' = "main"
            /\ sess' = Contents(disk)
            /\ main' = Top
       ELSE /\ win' = "error"
            /\ UNCHANGED <<sess, main>>
    /\ UNCHANGED <<disk, sel, items, org, dim>>

\* the password and Enter at once
Paste(s) == win = "prompt" /\ Submit(typed \o s)

Enter ==
    CASE win = "prompt" -> Submit(typed)
      [] win = "error" -> win' = "prompt" /\ UNCHANGED <<disk, sess, typed, main, sel, items, org, dim>>
      [] OTHER -> FALSE

Open ==
    /\ win = "main"
    /\ sess # {}
    /\ win' = "items"
    /\ sel' = Opened(RowsOf(sess)[main.idx])
    /\ items' = Top
    /\ org' = NoScroll
    /\ UNCHANGED <<disk, sess, typed, main, dim>>

Lock ==
    /\ win \in {"main", "items", "details"}
    /\ win' = "prompt"
    /\ sess' = {}
    /\ typed' = ""
    /\ main' = Top
    /\ sel' = << >>
    /\ items' = Top
    /\ org' = NoScroll
    /\ UNCHANGED <<disk, dim>>

Move(k) ==
    CASE win = "main" ->
           /\ main' = IF k = "Down" THEN GoDown(main, Len(RowsOf(sess)), MainHeight) ELSE GoUp(main)
           /\ UNCHANGED <<disk, sess, typed, win, sel, items, org, dim>>
      [] win = "items" ->
           /\ items' = IF k = "Down" THEN GoDown(items, Len(sel), ItemHeight) ELSE GoUp(items)
           /\ UNCHANGED <<disk, sess, typed, win, main, sel, org, dim>>
      [] win = "details" ->
           /\ org' = IF k = "Down" THEN [org EXCEPT !.y = @ + 1] ELSE [org EXCEPT !.y = IF @ > 0 THEN @ - 1 ELSE 0]
           /\ UNCHANGED <<disk, sess, typed, win, main, sel, items, dim>>

Sideways(k) ==
    /\ win = "details"
    /\ org' = IF k = "Right" THEN [org EXCEPT !.x = @ + 1] ELSE [org EXCEPT !.x = IF @ > 0 THEN @ - 1 ELSE 0]
    /\ UNCHANGED <<disk, sess, typed, win, main, sel, items, dim>>

Back ==
    /\ win = "items"
    /\ win' = "main"
    /\ sel' = << >>
    /\ items' = Top
    /\ UNCHANGED <<disk, sess, typed, main, org, dim>>

Uncover == /\ win = "items"
           /\ win' = "details"
           /\ org' = NoScroll
           /\ UNCHANGED <<disk, sess, typed, main, sel, items, dim>>
Cover   == /\ win = "details"
           /\ win' = "items"
           /\ org' = NoScroll
           /\ UNCHANGED <<disk, sess, typed, main, sel, items, dim>>

Quit == win' = "gone" /\ UNCHANGED <<disk, sess, typed, main, sel, items, org, dim>>

\* the keys; letters stand for themselves in the prompt (see Type)
Key(k) ==
    CASE k = "Quit" -> Quit
      [] k = "Lock" /\ win \in {"main", "items", "details"} -> Lock
      [] k = "Enter" /\ win \in {"prompt", "error"} -> Enter
      [] k \in {"Enter", "Right"} /\ win = "main" /\ sess # {} -> Open
      [] k \in {"Down", "Up"} /\ win \in {"main", "items", "details"} -> Move(k)
      [] k \in {"Left", "Right"} /\ win = "details" -> Sideways(k)
      [] k \in {"q", "Left"} /\ win = "items" -> Back
      [] k = "Tab" /\ win = "items" -> Uncover
      [] k = "Tab" /\ win = "details" -> Cover
      [] OTHER -> UNCHANGED gvars

\* the vault changes on disk
Change(d) == disk' = d /\ UNCHANGED <<sess, typed, win, main, sel, items, org, dim>>

\* the terminal gets another size, for good or there and back again; the windows
\* stay what they are (where exactly they lie then is left open: dim.fits)
Resize(d, back) == /\ win # "gone"
                   /\ dim' = IF back THEN dim ELSE [d EXCEPT !.fits = FALSE]
                   /\ UNCHANGED <<disk, sess, typed, win, main, sel, items, org>>
=============================================================================
