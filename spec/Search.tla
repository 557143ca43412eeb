-------------------------------- MODULE Search --------------------------------
(* Search(n, fn) as coded, in words of W bits (two's complement): the mean of *)
(* l and h is computed with MeanI, (l & h) + ((l ^ h) >> 1), and must neither *)
(* overflow nor leave [l, h).                                                 *)
EXTENDS SortyBase, TLC, Bitwise

CONSTANTS W, Bug

VARIABLES n, k,   \* length; fn(i) holds iff i >= k
          l, h, calls, done
vars == <<n, k, l, h, calls, done>>

Max == 2 ^ (W - 1) - 1
Mod == 2 ^ W
Wrap(x) == LET y == x % Mod IN IF y > Max THEN y - Mod ELSE y
\* operands of a mean, as unsigned words
U(x) == x % Mod
Shr(x) == x \div 2      \* arithmetic shift: floor
MeanI(x, y) ==
  IF Bug = "sum" THEN Shr(Wrap(x + y))
  ELSE Wrap(Wrap(U(x) & U(y)) + Shr(Wrap(U(x) ^^ U(y))))

Init == /\ n \in 0 .. Max /\ k \in 0 .. n
        /\ l = 0 /\ h = n /\ calls = 0 /\ done = FALSE
Step ==
  /\ ~done
  /\ IF l < h
     THEN LET m == MeanI(l, h) IN
          /\ Assert(0 <= m /\ m < n, <<"fn called with", m, "n", n>>)
          /\ calls' = calls + 1
          /\ IF m >= k THEN h' = m /\ l' = l ELSE l' = m + 1 /\ h' = h
          /\ done' = FALSE
     ELSE done' = TRUE /\ UNCHANGED <<l, h, calls>>
  /\ UNCHANGED <<n, k>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

\* everything below l is known to be false, everything from h on to be true
Bracket == 0 <= l /\ l <= k /\ k <= h /\ h <= n
Right == done => l = k
Few == calls <= BitLen(n) /\ 2 ^ calls * (h - l) <= 2 * n + 1
FewEnough == BitLen(n) <= 4 * (BitLen(n) + 2)
Finishes == <>done
\* the mean is floor((x + y) / 2) for all words, negative ones included
ASSUME Bug # "none" \/ \A x, y \in -Max - 1 .. Max : MeanI(x, y) = (x + y) \div 2
=============================================================================
