-------------------------------- MODULE Intact --------------------------------
(* Opening a vault whose files may be damaged.  A file is whole or hurt, and    *)
(* may be hurt or mended at any time.  An attempt to open the vault may read a  *)
(* file whenever it likes, from the beginning of the attempt on.                *)
EXTENDS Integers, Sequences, FiniteSets

\* an attempt: the files that were hurt all the time, and at some time
Attempt(h) == [all |-> h, any |-> h]
Seen(t, h) == [all |-> t.all \cap h, any |-> t.any \cup h]
\* another attempt of a run that may have kept its profile
Again(t, h) == [all |-> (t.all \cap h \cap {"profile"}) \cup (h \ {"profile"}), any |-> (t.any \cap {"profile"}) \cup h]

\* what may come of it, with the right password or another one
Results(t, right) == (IF right /\ t.all = {} THEN {"open"} ELSE {}) \cup (IF t.any # {} \/ ~right THEN {"refused"} ELSE {})

\* a run may be refused before it asks for the password
MayEnd(t) == t.any # {}
===============================================================================
