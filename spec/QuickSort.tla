------------------------------ MODULE QuickSort ------------------------------
(* Sorting by one goroutine: sampling, partOne, insertion and the recursion   *)
(* of short*, in the three forms the code has: "four" (integers, lengths:     *)
(* pivot is the mean of the middle two of four samples), "three" (floats,     *)
(* strings, byte slices: median of three samples) and "lsw" (Sort: the pivot  *)
(* stays in place, one sample is moved to each end). long* differs in the     *)
(* number of samples only. A slice is a function on lo..hi-1; every function  *)
(* application outside of the domain is an error for TLC, so that indices     *)
(* stay inside the slice is checked as well.                                  *)
EXTENDS Integers, FiniteSets, TLC, SortyBase

CONSTANTS Sizes, Keys,
          Ins,       \* MaxLenIns / MaxLenInsFC: longest range for insertion sort
          Forms,
          Bug

VARIABLES a0, form, res  \* input; form; result [a, depth], or none
vars == <<a0, form, res>>
None == [a |-> <<>>, depth |-> -1]

Sw(f, i, j) == [f EXCEPT ![i] = f[j], ![j] = f[i]]

\* insertion sort of positions lo..hi-1: h is the next element, l its place so far
RECURSIVE Insert(_, _, _), Insertion(_, _, _, _)
Insert(f, lo, l) == IF l > lo /\ f[l] < f[l - 1] THEN Insert(Sw(f, l, l - 1), lo, l - 1) ELSE f
Insertion(f, lo, h, hi) == IF h >= hi THEN f ELSE Insertion(Insert(f, lo, h), lo, h + 1, hi)

----------------------------------------------------------------------------
\* minMaxSample: [first, step, last]
Sample(slen, n0) ==
  LET n == n0 - 1
      step == slen \div n0
      span == n * step
      tail == slen - span
      more == tail > n /\ tail \div 2 > (step + 1) \div 2
      first == (IF more THEN tail - n ELSE tail) \div 2
  IN [first |-> first, step |-> IF more THEN step + 1 ELSE step, last |-> first + IF more THEN span + n ELSE span]

\* minMaxFour. The first entry of firstFour and so on: slen mod 8 = 0, 1, ..
FirstFour == <<0, 0, -1, 0, 0, 1, 1, 0>>
StepFour == <<0, 0, 1, 1, 0, 0, 0, 1>>
Four(slen) == [first |-> slen \div 8 + FirstFour[(slen % 8) + 1], step |-> slen \div 4 + StepFour[(slen % 8) + 1]]

Positions(slen, n) == LET s == Sample(slen, n) IN {s.first + j * s.step : j \in 0 .. n - 1}
\* largest distance of an element to the nearest sample
Farthest(slen, first, step, n) ==
  LET last == first + (n - 1) * step
      Max(x, y) == IF x > y THEN x ELSE y
  IN Max(Max(first, slen - 1 - last), step \div 2)
SampleRight(slen, n) ==
  LET s == Sample(slen, n) IN
  /\ s.last = s.first + (n - 1) * s.step
  /\ s.first >= 0 /\ s.step >= 2 /\ s.last < slen
  \* no other choice has a smaller distance
  /\ \A f \in 0 .. slen, t \in 1 .. slen :
       f + (n - 1) * t < slen => Farthest(slen, s.first, s.step, n) <= Farthest(slen, f, t, n)
FourRight(slen) == LET s == Sample(slen, 4) IN Four(slen) = [first |-> s.first, step |-> s.step]

----------------------------------------------------------------------------
\* partOne for a pivot value: result [a, k]
RECURSIVE Part(_, _, _, _), PSecond(_, _, _, _), PUp(_, _, _, _)
Part(f, l, h, pv) ==
  IF h <= l THEN [a |-> f, k |-> IF l = h /\ f[h] < pv THEN l + 1 ELSE l]
  ELSE IF pv <= f[h]
       THEN IF pv < f[l] THEN PSecond(f, l, h - 1, pv) ELSE Part(f, l + 1, h - 1, pv)
       ELSE PUp(f, l, h, pv)
PSecond(f, l, h, pv) ==
  IF h <= l THEN [a |-> f, k |-> l]
  ELSE IF f[h] <= pv THEN Part(Sw(f, l, h), l + 1, h - 1, pv) ELSE PSecond(f, l, h - 1, pv)
PUp(f, l, h, pv) ==
  IF pv <= f[l] THEN Part(Sw(f, l, h), l + 1, h - 1, pv)
  ELSE IF h <= l + 1 THEN [a |-> f, k |-> l + 2]
  ELSE PUp(f, l + 1, h, pv)

\* partOne for a pivot position (Sort)
RECURSIVE PartL(_, _, _, _), LUp(_, _, _, _), LDown(_, _, _, _)
PartL(f, l, h, p) ==
  IF l >= h THEN [a |-> f, k |-> IF l = h /\ h # p /\ f[h] < f[p] THEN l + 1 ELSE l]
  ELSE IF f[h] < f[p] THEN LUp(f, l, h, p)
  ELSE IF f[p] < f[l] THEN IF l >= h - 1 THEN [a |-> f, k |-> l] ELSE LDown(f, l, h - 1, p)
  ELSE PartL(f, l + 1, h - 1, p)
LUp(f, l, h, p) ==
  IF f[p] < f[l] THEN PartL(Sw(f, l, h), l + 1, h - 1, p)
  ELSE IF l + 1 >= h THEN [a |-> f, k |-> l + 2] ELSE LUp(f, l + 1, h, p)
LDown(f, l, h, p) ==
  IF f[h] < f[p] THEN PartL(Sw(f, l, h), l + 1, h - 1, p)
  ELSE IF l >= h - 1 THEN [a |-> f, k |-> l] ELSE LDown(f, l, h - 1, p)

Median3(f, p, l) ==
  LET q == IF p < f THEN f ELSE p  g == IF p < f THEN p ELSE f
  IN IF l < q THEN IF l < g THEN g ELSE l ELSE q
Mean4(w, x, y, z) ==
  LET d == IF z < x THEN x ELSE z  b == IF z < x THEN z ELSE x
      c == IF y < w THEN w ELSE y  a == IF y < w THEN y ELSE w
      c2 == IF d < c THEN d ELSE c
      b2 == IF b < a THEN a ELSE b
  IN (b2 + c2) \div 2

\* splits lo..hi-1 in lo..k-1, k..hi-1
Split(f, lo, hi, fm) ==
  CASE fm = "four" ->
         LET s == Four(hi - lo)  x(j) == f[lo + s.first + j * s.step] IN
         Part(f, lo, hi - 1, Mean4(x(0), x(1), x(2), x(3)))
    [] fm = "three" ->
         LET s == Sample(hi - lo, 3)  x(j) == f[lo + s.first + j * s.step] IN
         Part(f, lo, hi - 1, Median3(x(0), x(1), x(2)))
    [] fm = "lsw" ->
         LET s == Sample(hi - lo, 3)
             i == lo + s.first  p == i + s.step  j == p + s.step
             If(g, c, d) == IF g[c] < g[d] THEN Sw(g, c, d) ELSE g
             f1 == If(f, p, i)
             f2 == IF f1[j] < f1[p] THEN If(Sw(f1, j, p), p, i) ELSE f1
             f3 == If(f2, i, lo)
             f4 == If(f3, hi - 1, j)
         IN IF Bug = "noends" THEN PartL(f2, lo, hi - 1, p) ELSE PartL(f4, lo + 1, hi - 2, p)

RECURSIVE Short(_, _, _, _, _)
Short(f, lo, hi, fm, d) ==
  LET s == Split(f, lo, hi, fm)
      k == IF Bug = "ge" /\ s.k = lo + 1 THEN lo ELSE s.k
      left == k - lo < hi - k   \* is the left part the shorter one?
      sl == IF left THEN lo ELSE k      sh == IF left THEN k ELSE hi   \* shorter
      ll == IF left THEN k ELSE lo      lh == IF left THEN hi ELSE k   \* longer
      one == IF sh - sl > Ins THEN Short(s.a, sl, sh, fm, d + 1)
             ELSE [a |-> Insertion(s.a, sl, sl + 1, sh), depth |-> d]
      two == IF lh - ll > Ins THEN Short(one.a, ll, lh, fm, d)
             ELSE [a |-> Insertion(one.a, ll, ll + 1, lh), depth |-> d]
  IN IF lo < k /\ k < hi THEN [a |-> two.a, depth |-> IF one.depth > two.depth THEN one.depth ELSE two.depth]
     ELSE [a |-> <<>>, depth |-> -2]     \* an empty part: the real code would loop or crash

SortIt(f, n, fm) == IF n > Ins THEN Short(f, 0, n, fm, 1) ELSE [a |-> Insertion(f, 0, 1, n), depth |-> 0]

----------------------------------------------------------------------------
Dim(f) == Cardinality(DOMAIN f)
Init == /\ \E n \in Sizes : a0 \in [0 .. n - 1 -> Keys]
        /\ form \in Forms
        /\ res = None
Run == res = None /\ res' = SortIt(a0, Dim(a0), form) /\ UNCHANGED <<a0, form>>
Spec == Init /\ [][Run]_vars

Count(f, x) == Cardinality({i \in DOMAIN f : f[i] = x})
Sorted == res # None =>
  /\ res.depth # -2
  /\ \A i \in 1 .. Dim(a0) - 1 : res.a[i - 1] <= res.a[i]
  /\ \A x \in Keys : Count(res.a, x) = Count(a0, x)
\* recursion on the shorter part: depth at most the logarithm of the length
Shallow == res # None => res.depth <= Log2(Dim(a0))

ASSUME \A n \in 8 .. 600 : FourRight(n)
ASSUME \A n \in {3, 4, 5, 6, 7, 8} : \A slen \in 2 * n .. 3 * n + 20 : SampleRight(slen, n)
ASSUME \A n \in {3, 4, 5, 6, 7, 8} : \A slen \in 2 * n .. 600 :
         LET s == Sample(slen, n) IN s.step >= 2 /\ s.last = s.first + (n - 1) * s.step /\ s.last < slen
=============================================================================
