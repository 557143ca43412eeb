------------------------------ MODULE SearchAll ------------------------------
(* Search for collections of any length, with Apalache: Inv is inductive,     *)
(* every call of the predicate at least halves the range, and the answer is   *)
(* right when the range is empty. (Search.tla has the arithmetic of machine   *)
(* words, within small ones.)                                                 *)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  n,  \* length
  \* @type: Int;
  k,  \* the predicate is true from here on
  \* @type: Int;
  l,
  \* @type: Int;
  h,
  \* @type: Int;
  r   \* ghost: size of the range before

Init == n \in Nat /\ k \in 0 .. n /\ l = 0 /\ h = n /\ r = 2 * n + 1

Mean == (l + h) \div 2

Next ==
  /\ l < h
  /\ IF Mean >= k THEN h' = Mean /\ l' = l ELSE l' = Mean + 1 /\ h' = h
  /\ r' = h - l
  /\ UNCHANGED <<n, k>>

Inv ==
  /\ n >= 0 /\ k >= 0 /\ k <= n
  /\ 0 <= l /\ l <= k /\ k <= h /\ h <= n
  /\ 2 * (h - l) <= r

\* any state with Inv
AnyInv ==
  /\ n \in Int /\ k \in Int /\ l \in Int /\ h \in Int /\ r \in Int
  /\ Inv

Right == l >= h => l = k
InRange == l < h => Mean >= 0 /\ Mean < n
Halves == 2 * (h - l) <= r
Good == Inv /\ Right /\ InRange /\ Halves
==============================================================================
