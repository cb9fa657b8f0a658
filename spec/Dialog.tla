------------------------------- MODULE Dialog -------------------------------
(* The configuration dialog: settings and the answers of the user.            *)
(* Settings: [present, vault, notify, timeout, period].  An answer is the     *)
(* line typed, as a sequence of one-character strings; answers that are not   *)
(* given (end of the input) count as empty.                                   *)
EXTENDS Text, Version

NoSettings == [present |-> FALSE, vault |-> "", notify |-> TRUE, timeout |-> 1, period |-> 1]

Blank == {" ", "\t", "\r", "\n", "\f"}

RECURSIVE TrimLeft(_), TrimRight(_)
TrimLeft(s) == IF Len(s) > 0 /\ s[1] \in Blank THEN TrimLeft(Tail(s)) ELSE s
TrimRight(s) == IF Len(s) > 0 /\ s[Len(s)] \in Blank THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimRight(TrimLeft(s))

Answer(a, n) == IF n <= Len(a) THEN Trim(a[n]) ELSE << >>

SaysYes(x) == x = <<"y">> \/ x = <<"Y">>
SaysNo(x)  == x = <<"n">> \/ x = <<"N">>

\* a decimal number between lo and hi, or -1
Number(x, lo, hi) ==
    LET neg == Len(x) > 0 /\ x[1] = "-"
        ds  == IF Len(x) > 0 /\ x[1] \in {"-", "+"} THEN Tail(x) ELSE x
        z   == NoZeros(ds)
        RECURSIVE Val(_)
        Val(s) == IF Len(s) = 0 THEN 0 ELSE 10 * Val(SubSeq(s, 1, Len(s) - 1)) + DigitVal[s[Len(s)]]
        v   == IF neg THEN 0 - Val(z) ELSE Val(z)
    IN  IF Len(ds) = 0 \/ (\E k \in 1..Len(ds) : ds[k] \notin Digit) \/ Len(z) > 4 THEN -1
        ELSE IF v \in lo..hi THEN v ELSE -1

\* the settings after the dialog
AfterDialog(c, a) ==
    LET set == SaysYes(Answer(a, 1))
        o   == IF set THEN 1 ELSE 0           \* the path is asked for only then
        nt  == Answer(a, 2 + o)
        tm  == Number(Answer(a, 3 + o), 1, 30)
        pr  == Number(Answer(a, 4 + o), 0, 365)
    IN  [present |-> TRUE,
         vault   |-> IF set THEN Join(Answer(a, 2)) ELSE c.vault,
         notify  |-> IF SaysYes(nt) THEN TRUE ELSE IF SaysNo(nt) THEN FALSE ELSE c.notify,
         timeout |-> IF tm = -1 THEN c.timeout ELSE tm,
         period  |-> IF pr = -1 THEN c.period ELSE pr]

QuestionCount(a) == IF SaysYes(Answer(a, 1)) THEN 5 ELSE 4
=============================================================================
