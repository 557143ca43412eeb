------------------------------- MODULE Partition -------------------------------
(* Partitioning of slices: partOne*, partTwo* and partCon*, label by label as *)
(* in the code. One goroutine partitions the middle half [ml, mh), the caller *)
(* the quarters around it, then the caller closes the gap that may be left.   *)
(* Elements are ranks; only how they compare with the pivot pv matters, so    *)
(* three ranks below, at and above it are all cases.                          *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Ns,          \* lengths
          Ranks, Pv, AtLeast,
          Interleave,  \* do the two goroutines take turns freely?
          Bug

VARIABLES a0, a,  \* initial and current contents
          n,      \* length
          one,    \* goroutine of the middle: [pc, l, h, k]
          two     \* caller: [pc, l, h, r, k]
vars == <<a0, a, n, one, two>>

mid == n \div 2
ml == mid \div 2
mh == (mid + n) \div 2

Init ==
  /\ n \in Ns
  /\ a0 \in [0 .. n - 1 -> Ranks]
  \* pv is the median of (at least) AtLeast * 2 samples
  /\ Cardinality({i \in 0 .. n - 1 : a0[i] <= Pv}) >= AtLeast
  /\ Cardinality({i \in 0 .. n - 1 : a0[i] >= Pv}) >= AtLeast
  /\ a = a0
  /\ one = [pc |-> "start", l |-> ml, h |-> mh - 1, k |-> -1]
  /\ two = [pc |-> "start", l |-> ml - 1, h |-> mh, r |-> -2, k |-> -1]

Swap(f, i, j) == [f EXCEPT ![i] = f[j], ![j] = f[i]]

----------------------------------------------------------------------------
(* partOne: returns k with slc[:k] <= pivot <= slc[k:] *)
One(s) ==
  LET l == s.l h == s.h IN
  CASE s.pc = "start" ->
         IF h <= l THEN {[s EXCEPT !.pc = "last"]}
         ELSE IF Pv <= a[h] THEN IF Pv < a[l] THEN {[s EXCEPT !.pc = "second"]} ELSE {[s EXCEPT !.pc = "next"]}
         ELSE {[s EXCEPT !.pc = "up"]}
    [] s.pc = "second" ->
         IF h - 1 <= l THEN {[s EXCEPT !.pc = "ret", !.h = h - 1, !.k = l]}
         ELSE IF a[h - 1] <= Pv THEN {[s EXCEPT !.pc = "swap", !.h = h - 1]}
         ELSE {[s EXCEPT !.h = h - 1]}
    [] s.pc = "swap" -> {[s EXCEPT !.pc = "next"]}
    [] s.pc = "next" -> {[s EXCEPT !.pc = "start", !.l = l + 1, !.h = h - 1]}
    [] s.pc = "up" ->
         IF Pv <= a[l] THEN {[s EXCEPT !.pc = "swap"]}
         ELSE IF h <= l + 1 THEN {[s EXCEPT !.pc = "ret", !.l = l + 1, !.k = IF Bug = "up" THEN l + 1 ELSE l + 2]}
         ELSE {[s EXCEPT !.l = l + 1]}
    [] s.pc = "last" ->
         {[s EXCEPT !.pc = "ret", !.k = IF l = h /\ a[h] < Pv /\ Bug # "last" THEN l + 1 ELSE l]}
    [] OTHER -> {}

StepOne == /\ \E s \in One(one) : one' = s
           /\ a' = IF one.pc = "swap" THEN Swap(a, one.l, one.h) ELSE a
           /\ UNCHANGED <<a0, n, two>>

----------------------------------------------------------------------------
(* partTwo: swaps elements to get slc[:l] <= pivot <= slc[h:], the gap (l,h)  *)
(* expands until one of the quarters is consumed; then partCon closes the gap *)
Two(s) ==
  LET l == s.l h == s.h IN
  CASE s.pc = "start" ->
         IF l < 0 THEN {[s EXCEPT !.pc = "join", !.r = h]}
         ELSE IF h >= n THEN {[s EXCEPT !.pc = "join", !.r = l]}
         ELSE IF Pv <= a[h] THEN IF Pv < a[l] THEN {[s EXCEPT !.pc = "second"]} ELSE {[s EXCEPT !.pc = "next"]}
         ELSE {[s EXCEPT !.pc = "down"]}
    [] s.pc = "second" ->
         IF h + 1 >= n THEN {[s EXCEPT !.pc = "join", !.h = h + 1, !.r = l]}
         ELSE IF a[h + 1] <= Pv THEN {[s EXCEPT !.pc = "swap", !.h = h + 1]}
         ELSE {[s EXCEPT !.h = h + 1]}
    [] s.pc = "swap" -> {[s EXCEPT !.pc = "next"]}
    [] s.pc = "next" -> {[s EXCEPT !.pc = "start", !.l = l - 1, !.h = h + 1]}
    [] s.pc = "down" ->
         IF Pv <= a[l] THEN {[s EXCEPT !.pc = "swap"]}
         ELSE IF l - 1 < 0 THEN {[s EXCEPT !.pc = "join", !.l = l - 1, !.r = h]}
         ELSE {[s EXCEPT !.l = l - 1]}
    [] s.pc = "join" -> \* k := l + <-ch
         IF one.pc = "ret" THEN {[s EXCEPT !.pc = IF s.r < mid THEN "low" ELSE "high", !.k = one.k]} ELSE {}
    [] s.pc = "low" ->  \* gap left in low range?
         IF 0 <= s.r
         THEN IF Pv < a[s.r] THEN {[s EXCEPT !.r = @ - 1, !.k = @ - 1]} ELSE {[s EXCEPT !.r = @ - 1]}
         ELSE {[s EXCEPT !.pc = "ret"]}
    [] s.pc = "high" -> \* gap left in high range?
         IF s.r < n
         THEN IF a[s.r] < Pv THEN {[s EXCEPT !.r = @ + 1, !.k = @ + 1]} ELSE {[s EXCEPT !.r = @ + 1]}
         ELSE {[s EXCEPT !.pc = "ret"]}
    [] OTHER -> {}

StepTwo == /\ \E s \in Two(two) : two' = s
           /\ a' = CASE two.pc = "swap" -> Swap(a, two.l, two.h)
                     [] two.pc = "low" /\ two'.k < two.k -> Swap(a, two.r, two'.k)
                     [] two.pc = "high" /\ two'.k > two.k -> Swap(a, two.r, two.k)
                     [] OTHER -> a
           /\ UNCHANGED <<a0, n, one>>

Next == \/ StepOne /\ (Interleave \/ TRUE)
        \/ StepTwo /\ (Interleave \/ one.pc = "ret")
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
\* indices accessed by the next step
AccOne == CASE one.pc = "start" -> IF one.l < one.h THEN {one.l, one.h} ELSE {}
            [] one.pc = "second" -> IF one.h - 1 > one.l THEN {one.h - 1} ELSE {}
            [] one.pc = "swap" -> {one.l, one.h}
            [] one.pc = "up" -> {one.l}
            [] one.pc = "last" -> IF one.l = one.h THEN {one.h} ELSE {}
            [] OTHER -> {}
AccTwo == CASE two.pc = "start" -> IF two.l >= 0 /\ two.h < n THEN {two.l, two.h} ELSE {}
            [] two.pc = "second" -> IF two.h + 1 < n THEN {two.h + 1} ELSE {}
            [] two.pc = "swap" -> {two.l, two.h}
            [] two.pc = "down" -> {two.l}
            [] two.pc = "low" -> IF two.r >= 0 THEN {two.r} \cup (IF Pv < a[two.r] THEN {two.k - 1} ELSE {}) ELSE {}
            [] two.pc = "high" -> IF two.r < n THEN {two.r} \cup (IF a[two.r] < Pv THEN {two.k} ELSE {}) ELSE {}
            [] OTHER -> {}

InBounds == AccOne \subseteq ml .. mh - 1 /\ AccTwo \subseteq 0 .. n - 1
\* C10: until the result is received, the caller stays out of the middle
Apart == two.pc \in {"start", "second", "swap", "next", "down", "join"} => AccTwo \cap ml .. mh - 1 = {}
Count(f, x) == Cardinality({i \in 0 .. n - 1 : f[i] = x})
Permuted == \A x \in Ranks : Count(a, x) = Count(a0, x)
\* partOne alone makes two non-empty parts if two elements belong to each side
PartOneRight == one.pc = "ret" =>
  /\ Cardinality({i \in ml .. mh - 1 : a0[i] <= Pv}) >= 2 => one.k > ml
  /\ Cardinality({i \in ml .. mh - 1 : a0[i] >= Pv}) >= 2 => one.k < mh
  /\ one.k \in ml .. mh
  /\ two.pc \notin {"low", "high", "ret"} => \A i \in ml .. mh - 1 : IF i < one.k THEN a[i] <= Pv ELSE a[i] >= Pv
PartConRight == two.pc = "ret" =>
  /\ two.k \in 1 .. n - 1
  /\ \A i \in 0 .. n - 1 : IF i < two.k THEN a[i] <= Pv ELSE a[i] >= Pv
Ends == two.pc # "ret" => ENABLED Next
Terminates == <>(two.pc = "ret")
=============================================================================
