-------------------------------- MODULE Text --------------------------------
(* Text, as far as the specification has to compute with it.  Titles are      *)
(* sequences of code points (they are compared, ordered and searched without  *)
(* regard to case); everything else is a TLC string, on which Len, SubSeq and *)
(* \o work.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

-----------------------------------------------------------------------------
(* Code points *)

LowerCp(c) ==
    IF \/ c \in 65..90                       \* A-Z
       \/ (c \in 192..222 /\ c # 215)        \* Latin-1
       \/ (c \in 913..939 /\ c # 930)        \* Greek
       \/ c \in 1040..1071                   \* Cyrillic
    THEN c + 32
    ELSE IF c \in 1024..1039 THEN c + 80 ELSE c

Lower(s) == [i \in 1..Len(s) |-> LowerCp(s[i])]

\* q occurs in s
Occurs(q, s) ==
    \/ Len(q) = 0
    \/ \E i \in 1..(Len(s) - Len(q) + 1) :
          \A k \in 1..Len(q) : s[i + k - 1] = q[k]

OccursNoCase(q, s) == Occurs(Lower(q), Lower(s))

\* s is before t in code point order (which is also the order of UTF-8 bytes)
Before(s, t) ==
    LET n == IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)
        D == {i \in 1..n : s[i] # t[i]}
    IN  IF D = {} THEN Len(s) < Len(t)
        ELSE LET m == CHOOSE i \in D : \A j \in D : i <= j IN s[m] < t[m]

-----------------------------------------------------------------------------
(* Strings *)

Chr(s, i) == SubSeq(s, i, i)

LOWERS == "abcdefghijklmnopqrstuvwxyz"
UPPERS == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIGITS == "0123456789"

IndexIn(c, s) == LET I == {i \in 1..Len(s) : Chr(s, i) = c}
                 IN  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

UpChr(c)   == LET i == IndexIn(c, LOWERS) IN IF i = 0 THEN c ELSE Chr(UPPERS, i)
DownChr(c) == LET i == IndexIn(c, UPPERS) IN IF i = 0 THEN c ELSE Chr(LOWERS, i)

IsWordChr(c) == IndexIn(c, LOWERS \o UPPERS \o DIGITS \o "_") # 0

RECURSIVE Join(_)
Join(l) == IF Len(l) = 0 THEN "" ELSE Head(l) \o Join(Tail(l))

\* every word with its first letter in upper case (ASCII)
Capitalised(s) ==
    Join([i \in 1..Len(s) |->
            IF i = 1 \/ ~IsWordChr(Chr(s, i - 1)) THEN UpChr(Chr(s, i)) ELSE Chr(s, i)])

LowerStr(s) == Join([i \in 1..Len(s) |-> DownChr(Chr(s, i))])

RECURSIVE Flatten(_)
Flatten(l) == IF Len(l) = 0 THEN << >> ELSE Head(l) \o Flatten(Tail(l))

-----------------------------------------------------------------------------
(* Numbers and dates *)

Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)

\* years before 0 or after 9999 do not occur
Pad4(n) == IF n < 10 THEN "000" \o ToString(n)
           ELSE IF n < 100 THEN "00" \o ToString(n)
           ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)

\* the proleptic Gregorian date of a day number (1970-01-01 is day 0)
Civil(day) ==
    LET z   == day + 719468
        era == z \div 146097                 \* \div rounds down
        doe == z - era * 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp  == (5 * doy + 2) \div 153
        d   == doy - (153 * mp + 2) \div 5 + 1
        m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
        y   == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
    IN  [y |-> y, m |-> m, d |-> d]

\* a stamp [day, sec] moved by off seconds
Shift(st, off) == LET s == st.sec + off
                  IN  [day |-> st.day + (s \div 86400), sec |-> s % 86400]

DateText(st, off) == LET c == Civil(Shift(st, off).day)
                     IN  Pad4(c.y) \o "-" \o Pad2(c.m) \o "-" \o Pad2(c.d)

TimeText(st, off) == LET s == Shift(st, off).sec
                     IN  DateText(st, off) \o " " \o Pad2(s \div 3600) \o ":"
                         \o Pad2((s % 3600) \div 60) \o ":" \o Pad2(s % 60)
=============================================================================
