---------------------------------- MODULE Work ----------------------------------
(* Why ordinary inputs take n log n accesses: if pivots are such that a split *)
(* leaves at least a Side-th of a range on each side, the dearest choice of   *)
(* splits still costs no more than WorkBound. Elements equal to the pivot go  *)
(* to either side as needed (LswPartition!Balanced), so that few distinct     *)
(* values are no exception. w[n] is the cost of the dearest run on n elements *)
(* (w of 0 is 0).                                                             *)
EXTENDS SortyBase, TLC

CONSTANTS MaxN,
          Ins,    \* ranges up to this length are sorted by insertion
          Touch,  \* accesses per element when a range is partitioned
          Side

VARIABLE w

Of(n) == IF n = 0 THEN 0 ELSE w[n]
Insertion(n) == (3 * n * (n - 1)) \div 2   \* everything moves to the front
Dearest(S) == CHOOSE x \in S : \A y \in S : y <= x

Init == w = <<>>
Next ==
  /\ Len(w) < MaxN
  /\ LET n == Len(w) + 1
         least == IF n \div Side = 0 THEN 1 ELSE n \div Side IN
     w' = Append(w, IF n <= Ins THEN Insertion(n)
                    ELSE Touch * n + Dearest({Of(k) + Of(n - k) : k \in least .. n \div 2}))
Spec == Init /\ [][Next]_w

Bounded == w # <<>> => w[Len(w)] <= WorkBound(Len(w))
=============================================================================
