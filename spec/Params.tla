-------------------------------- MODULE Params --------------------------------
(* Why the tuning values are checked at start-up: what the algorithms take    *)
(* for granted about the lengths of ranges follows from GoodParams, and not   *)
(* from less. One state per combination of values and length of a range.      *)
EXTENDS SortyBase

CONSTANTS MaxV

VARIABLES ins, rec, len

\* Numbers of samples to choose a pivot for a short range, a long range, a range shared by two goroutines
Short == 4
Long == 6
Conc == 8

\* What is done with a range, by its length (ins and rec: MaxLenIns and MaxLenRec, or the FC variants)
Insertion == len <= ins
IsShort == ~Insertion /\ len <= rec
IsLong == len > rec /\ len < 2 * (rec + 1)
Dual == len >= 2 * (rec + 1)

\* n samples are equidistant if each has a neighbour
Samples(n) == len >= 2 * n
\* step between samples, and where they end
Step(n) == len \div n
Fits(n) == Step(n) >= 2 /\ (n - 1) * Step(n) < len

\* A range partitioned around a pivot: lengths of the parts
Parts == {<<k, len - k>> : k \in 0 .. len}
Longer(p) == IF p[1] < p[2] THEN p[2] ELSE p[1]

Init == ins \in 1 .. MaxV /\ rec \in 1 .. 3 * MaxV /\ len \in 0 .. 6 * MaxV + 4
Next == UNCHANGED <<ins, rec, len>>
Spec == Init /\ [][Next]_<<ins, rec, len>>

\* the values could be MaxLenIns and MaxLenRec, or MaxLenInsFC and MaxLenRecFC, of good parameters
Good == \/ GoodParams(3, ins, 9, rec, rec - 1)
        \/ GoodParams(3, (rec - 1) \div 2, ins, rec + 1, rec)

Enough == Good =>
  /\ IsShort => Samples(Short) /\ Fits(Short)
  /\ IsLong => Samples(Long) /\ Fits(Long)
  /\ Dual => Samples(Conc) /\ Fits(Conc)
  \* the longer part of a long range goes on as a range of its own, it is not for insertion
  /\ (IsLong \/ Dual) => \A p \in Parts : Longer(p) > ins
  \* each half of a dual range is worth a goroutine
  /\ Dual => len \div 2 > rec
  \* one class only
  /\ Cardinality({c \in {<<1, Insertion>>, <<2, IsShort>>, <<3, IsLong>>, <<4, Dual>>} : c[2]}) = 1
=============================================================================
