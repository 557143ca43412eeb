----------------------------- MODULE LswPartition -----------------------------
(* Partitioning for Sort: partOne, partTwo and partCon of sortyLsw.go. Unlike *)
(* Partition.tla the pivot is an element of the collection, known by its      *)
(* index, that may be moved by the caller when it closes the gap. Each step   *)
(* is one call lsw(i, k, r, s). pivot() has put one element not above the     *)
(* pivot in front of the range and one not below it behind the range, they    *)
(* are not part of the model: 0..n-1 is what the code calls lo+1..hi-1.       *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Ns,          \* lengths
          Off,         \* the pivot is at most that far from the middle
          Vals,        \* contents: each set of values is enough for an initial state
          Interleave,  \* do the two goroutines take turns freely?
          Bug

VARIABLES a0, a,  \* initial and current contents: 0, 1, 2 for below, at, above the pivot
          n, p0,  \* length, first position of the pivot
          one,    \* goroutine of the middle: [pc, l, h, k]
          two     \* caller: [pc, l, h, r, k, pv]
vars == <<a0, a, n, p0, one, two>>

S1(pc, l, h, k) == [pc |-> pc, l |-> l, h |-> h, k |-> k]
Loop1(pv, l, h) == IF l < h THEN S1("A", l, h, 0)
                   ELSE IF l = h /\ h # pv THEN S1("mid", l, h, 0)
                   ELSE S1("ret", l, h, l)

S2(s, pc, l, h, r) == [s EXCEPT !.pc = pc, !.l = l, !.h = h, !.r = r]
Adv2(s, l, h) == IF l < 0 THEN S2(s, "join", l, h, h)
                 ELSE IF h > n - 1 THEN S2(s, "join", l, h, l)
                 ELSE S2(s, "A", l, h, 0)
Low(s, pv, r, k) == [s EXCEPT !.pc = IF 0 <= r THEN "low" ELSE "ret", !.pv = pv, !.r = r, !.k = k]
High(s, pv, r, k) == [s EXCEPT !.pc = IF r <= n - 1 THEN "high" ELSE "ret", !.pv = pv, !.r = r, !.k = k]

Mean(x, y) == (x + y) \div 2

Init ==
  /\ n \in Ns
  /\ p0 \in {p \in 0 .. n - 1 : 2 * p - (n - 1) \in -2 * Off .. 2 * Off}
  /\ a0 \in {f \in UNION {[0 .. n - 1 -> v] : v \in Vals} : f[p0] = 1}
  /\ a = a0
  /\ one = Loop1(p0, Mean(0, p0) + 1, Mean(p0, n - 1) - 1)
  /\ two = [pc |-> "A", l |-> Mean(0, p0), h |-> Mean(p0, n - 1), r |-> 0, k |-> 0, pv |-> p0]

\* the middle range skips the pivot: scanning up from l, down from h
Up1(l, h) == IF l >= h THEN S1("ret", l, h, l + 1)
             ELSE IF l # p0 THEN S1("up", l, h, 0)
             ELSE IF l + 1 >= h THEN S1("ret", l + 1, h, l + 2) ELSE S1("up", l + 1, h, 0)
Down1(l, h) == IF l >= h THEN S1("ret", l, h, l)
               ELSE IF h # p0 \/ Bug = "movepv" THEN S1("down", l, h, 0)
               ELSE IF l >= h - 1 THEN S1("ret", l, h - 1, l) ELSE S1("down", l, h - 1, 0)

\* the call a goroutine makes next: <<i, k, r, s>>, <<>> if it makes none
Call1 == LET l == one.l h == one.h IN
  CASE one.pc \in {"A", "mid"} -> <<h, p0, h, h>>
    [] one.pc = "up" -> <<l, p0, l, l>>
    [] one.pc = "upswap" -> <<h, p0, h, l>>
    [] one.pc = "B" -> <<p0, l, l, l>>
    [] one.pc = "down" -> <<p0, h, h, h>>
    [] one.pc = "downswap" -> <<p0, l, h, l>>
    [] OTHER -> <<>>
Then1(t) == LET l == one.l h == one.h IN
  CASE one.pc = "A" -> IF t THEN Up1(l, h) ELSE S1("B", l, h, 0)
    [] one.pc = "up" -> IF t THEN Up1(l + 1, h) ELSE S1("upswap", l, h, 0)
    [] one.pc = "B" -> IF t THEN Down1(l, h - 1) ELSE Loop1(p0, l + 1, h - 1)
    [] one.pc = "down" -> IF t THEN Down1(l, h - 1) ELSE S1("downswap", l, h, 0)
    [] one.pc \in {"upswap", "downswap"} -> Loop1(p0, l + 1, h - 1)
    [] one.pc = "mid" -> S1("ret", l, h, IF t THEN l + 1 ELSE l)

Call2 == LET l == two.l h == two.h pv == two.pv IN
  CASE two.pc = "A" -> <<h, pv, h, h>>
    [] two.pc = "up" -> <<l, pv, l, l>>
    [] two.pc = "upswap" -> <<h, pv, h, l>>
    [] two.pc = "B" -> <<pv, l, l, l>>
    [] two.pc = "down" -> <<pv, h, h, h>>
    [] two.pc = "downswap" -> <<pv, l, h, l>>
    [] two.pc = "low" -> <<pv, two.r, two.k - 1, two.r>>
    [] two.pc = "high" -> <<two.r, pv, two.r, two.k>>
    [] OTHER -> <<>>
Then2(t) == LET l == two.l h == two.h pv == two.pv r == two.r k == two.k IN
  CASE two.pc = "A" -> S2(two, IF t THEN "up" ELSE "B", l, h, 0)
    [] two.pc = "up" -> IF ~t THEN S2(two, "upswap", l, h, 0)
                        ELSE IF l - 1 < 0 THEN S2(two, "join", l - 1, h, h) ELSE S2(two, "up", l - 1, h, 0)
    [] two.pc \in {"B", "down"} ->
         IF ~t THEN IF two.pc = "B" THEN Adv2(two, l - 1, h + 1) ELSE S2(two, "downswap", l, h, 0)
         ELSE IF h + 1 > n - 1 THEN S2(two, "join", l, h + 1, l) ELSE S2(two, "down", l, h + 1, 0)
    [] two.pc \in {"upswap", "downswap"} -> Adv2(two, l - 1, h + 1)
    [] two.pc = "low" -> IF t THEN Low(two, IF k - 1 = pv /\ Bug # "stalepv" THEN r ELSE pv, r - 1, k - 1)
                         ELSE Low(two, pv, r - 1, k)
    [] two.pc = "high" -> IF t THEN High(two, IF k = pv /\ Bug # "stalepv" THEN r ELSE pv, r + 1, k + 1)
                          ELSE High(two, pv, r + 1, k)

True(c) == a[c[1]] < a[c[2]]
Do(c) == IF True(c) /\ c[3] # c[4] THEN [a EXCEPT ![c[3]] = a[c[4]], ![c[4]] = a[c[3]]] ELSE a

StepOne == Call1 # <<>> /\ one' = Then1(True(Call1)) /\ a' = Do(Call1) /\ UNCHANGED <<a0, n, p0, two>>
StepTwo == Call2 # <<>> /\ two' = Then2(True(Call2)) /\ a' = Do(Call2) /\ UNCHANGED <<a0, n, p0, one>>
Join == /\ two.pc = "join" /\ (one.pc = "ret" \/ Bug = "nojoin")
        /\ two' = IF two.r < two.pv THEN Low(two, two.pv, two.r, one.k) ELSE High(two, two.pv, two.r, one.k)
        /\ UNCHANGED <<a0, a, n, p0, one>>
Next == \/ StepOne
        \/ (Interleave \/ one.pc = "ret" \/ two.pc = "join") /\ StepTwo
        \/ Join
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
\* elements a call compares and those it swaps
Cmp(c) == {c[1], c[2]}
Swp(c) == IF True(c) THEN {c[3], c[4]} \ (IF c[3] = c[4] THEN {c[3]} ELSE {}) ELSE {}
\* C06: both calls may be running now
NoConflict == Call1 # <<>> /\ Call2 # <<>> =>
  /\ Swp(Call1) \cap (Cmp(Call2) \cup Swp(Call2)) = {}
  /\ Swp(Call2) \cap (Cmp(Call1) \cup Swp(Call1)) = {}
InBounds == \A c \in {Call1, Call2} : c # <<>> => {c[j] : j \in 1 .. 4} \subseteq 0 .. n - 1
\* exchanges happen: what is exchanged is on the wrong side or equal to the pivot
Swaps == /\ one.pc \in {"upswap", "downswap"} => True(Call1)
         /\ two.pc \in {"upswap", "downswap"} => True(Call2)
\* the pivot is where it is believed to be
PivotKnown == a[two.pv] = 1
Count(f, x) == Cardinality({i \in 0 .. n - 1 : f[i] = x})
Permuted == \A x \in 0 .. 2 : Count(a, x) = Count(a0, x)
\* C20: elements equal to the pivot go to either side as needed: a side of the middle range gets a
\* quarter of it, or half of what may be there if that is less
Balanced == one.pc = "ret" =>
  LET lo == Mean(0, p0) + 1
      hi == Mean(p0, n - 1) - 1
      m == hi - lo                     \* without the pivot
      may(S) == Cardinality({i \in (lo .. hi) \ {p0} : a0[i] \in S})
      least(x) == IF x < m \div 2 THEN x ELSE m \div 2
  IN 2 * (one.k - lo) >= least(may({0, 1})) - 1 /\ 2 * (hi + 1 - one.k) >= least(may({1, 2})) - 1
PartRight == two.pc = "ret" => /\ two.k \in 0 .. n
                               /\ \A i \in 0 .. n - 1 : IF i < two.k THEN a[i] <= 1 ELSE a[i] >= 1
Ends == two.pc # "ret" => ENABLED Next
Terminates == <>(two.pc = "ret")
=============================================================================
