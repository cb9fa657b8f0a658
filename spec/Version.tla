------------------------------- MODULE Version -------------------------------
(* Version numbers: texts made of decimal numbers separated by dots, given as *)
(* sequences of one-character strings.                                        *)
EXTENDS Integers, Sequences

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == [d \in Digit |-> CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4
                               [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] d = "9" -> 9]

\* the parts of a text between separators
RECURSIVE SplitAt(_, _, _)
SplitAt(s, sep, cur) ==
    IF Len(s) = 0 THEN <<cur>>
    ELSE IF Head(s) = sep THEN <<cur>> \o SplitAt(Tail(s), sep, << >>)
    ELSE SplitAt(Tail(s), sep, Append(cur, Head(s)))

Parts(s) == SplitAt(s, ".", << >>)

IsVersion(s) == \A n \in 1..Len(Parts(s)) : LET p == Parts(s)[n] IN Len(p) > 0 /\ \A k \in 1..Len(p) : p[k] \in Digit

RECURSIVE NoZeros(_)
NoZeros(p) == IF Len(p) > 0 /\ Head(p) = "0" THEN NoZeros(Tail(p)) ELSE p

\* digits a denote a smaller number than digits b
SmallerNum(a, b) ==
    LET x == NoZeros(a)
        y == NoZeros(b)
        D == {n \in 1..Len(x) : x[n] # y[n]}
    IN  IF Len(x) # Len(y) THEN Len(x) < Len(y)
        ELSE IF D = {} THEN FALSE
        ELSE LET m == CHOOSE n \in D : \A k \in D : n <= k IN DigitVal[x[m]] < DigitVal[y[m]]

\* version b is greater than version a
Newer(a, b) ==
    LET p == Parts(a)
        q == Parts(b)
        n == IF Len(p) < Len(q) THEN Len(q) ELSE Len(p)
        P(k) == IF k <= Len(p) THEN p[k] ELSE << >>
        Q(k) == IF k <= Len(q) THEN q[k] ELSE << >>
    IN  /\ IsVersion(b)
        /\ \E k \in 1..n : /\ SmallerNum(P(k), Q(k))
                           /\ \A j \in 1..(k - 1) : ~SmallerNum(P(j), Q(j)) /\ ~SmallerNum(Q(j), P(j))
=============================================================================
