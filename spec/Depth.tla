--------------------------------- MODULE Depth ---------------------------------
(* Why the stack stays logarithmic: however badly the pivots split, recursion *)
(* goes into the shorter part and the longer one is handled by a jump. An     *)
(* adversary chooses where every range is split. One goroutine; frames on its *)
(* stack hold the range to go on with when the call above them returns.       *)
EXTENDS SortyBase, TLC

CONSTANTS MaxN,
          Ins,   \* ranges up to this length are not split
          Bug

VARIABLES n0,    \* length of the whole
          cur,   \* length of the range at hand
          stack  \* lengths of the longer ranges waiting, innermost last
vars == <<n0, cur, stack>>

Init == n0 \in 0 .. MaxN /\ cur = n0 /\ stack = <<>>
Split ==
  /\ cur > Ins
  /\ \E k \in 1 .. cur - 1 :
       LET s == IF (k < cur - k) = (Bug # "longer") THEN k ELSE cur - k  \* recursion here
           l == cur - s IN
       IF s > Ins THEN cur' = s /\ stack' = Append(stack, l)
       ELSE cur' = l /\ UNCHANGED stack
  /\ UNCHANGED n0
Return ==
  /\ cur <= Ins
  /\ stack # <<>>
  /\ cur' = stack[Len(stack)] /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ UNCHANGED n0
Next == Split \/ Return
Spec == Init /\ [][Next]_vars

\* each frame at least halves the range
Halves == \A i \in 1 .. Len(stack) : 2 ^ (i - 1) * stack[i] <= n0
Shallow == Len(stack) <= Log2(n0) /\ Len(stack) + 3 <= DepthBound(n0)
\* the sum of what waits and what is at hand never exceeds the whole
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(SubSeq(s, 2, Len(s)))
InPlace == Sum(stack) + cur <= n0
=============================================================================
