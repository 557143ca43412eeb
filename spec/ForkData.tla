------------------------------- MODULE ForkData -------------------------------
(* ForkSort with the contents of the collection. Partitioning a range chooses *)
(* any boundary and any of the arrangements with nothing greater before the   *)
(* boundary than after it; sorting a range which is not long puts it in       *)
(* order. Shown: whatever goroutines do in whatever order, the contents stay  *)
(* a rearrangement, ranges that are still to be sorted are in order relative  *)
(* to all the rest, and the collection is sorted when the call returns.       *)
EXTENDS ForkSort

CONSTANTS Vals     \* values of elements
VARIABLES arr0, arr
dvars == <<vars, arr0, arr>>

\* contents of a over r, rearranged: the k - r[1] + 1 least values first. How values are
\* arranged within the two parts: as they were ("keep") or backwards ("turn")
Count(a, r, v) == Cardinality({i \in Elems(r) : a[i] = v})

\* i-th place in r of the i-th value in order
RECURSIVE InOrder(_, _)
InOrder(a, r) == \* sequence of the values in r in order
  IF Size(r) <= 0 THEN <<>>
  ELSE LET s == InOrder(a, <<r[1], r[2] - 1>>)
           v == a[r[2]]
           p == Cardinality({i \in DOMAIN s : s[i] <= v})
       IN SubSeq(s, 1, p) \o <<v>> \o SubSeq(s, p + 1, Len(s))

Sort(a, r) == LET s == InOrder(a, r)
              IN [i \in DOMAIN a |-> IF i \in Elems(r) THEN s[i - r[1] + 1] ELSE a[i]]

Back(a, r) == [i \in DOMAIN a |-> IF i \in Elems(r) THEN a[r[1] + r[2] - i] ELSE a[i]]

\* arrangements after partitioning r between k and k + 1: each part in order or backwards
Parts(a, r, k) == LET s == Sort(a, r)
                      lo == <<r[1], k>>
                      hi == <<k + 1, r[2]>>
                  IN {Back(s, lo), Back(Back(s, lo), hi), Back(s, hi)}

\* what the step of g did to the contents, by the ranges it had and has
Split(g) == \E k \in gs[g].ar[1] .. gs[g].ar[2] - 1 :
  LET lo == <<gs[g].ar[1], k>>
      hi == <<k + 1, gs[g].ar[2]>>
      new == UNION ({{gs'[g].ar, gs'[g].aq}}
                    \cup {{gs'[g].st[i] : i \in DOMAIN gs'[g].st}}
                    \cup {{gs'[i].ar : i \in DOMAIN gs' \ DOMAIN gs}})
  IN \E b \in Parts(arr, gs[g].ar, k) :
       /\ lo \in new \/ hi \in new
       /\ IF sorted' = sorted THEN {lo, hi} \subseteq new /\ arr' = b
          ELSE /\ Elems(lo) = sorted' \ sorted \/ Elems(hi) = sorted' \ sorted
               /\ arr' = Sort(b, IF Elems(lo) = sorted' \ sorted THEN lo ELSE hi)

DataStep(g) ==
  CASE At(g, "gap") \/ (At(g, "long") /\ (LongLeaf(g) \/ LongBoth(g))) -> Split(g)
    [] At(g, "leaf") -> arr' = IF Bug = "leaf" THEN arr ELSE Sort(arr, gs[g].ar)
    [] OTHER -> UNCHANGED arr

DInit == Init /\ arr0 \in [1 .. N -> Vals] /\ arr = arr0
DNext == /\ UNCHANGED arr0
         /\ \/ SetMaxGor /\ UNCHANGED arr
            \/ \E g \in DOMAIN gs : Do(g) /\ DataStep(g)
            \/ ~Running /\ UNCHANGED <<vars, arr>>  \* any other end is a deadlock
DSpec == DInit /\ [][DNext]_dvars

----------------------------------------------------------------------------
Rearranged == \A v \in Vals : Count(arr, <<1, N>>, v) = Count(arr0, <<1, N>>, v)

\* sorted elements are where they belong
Placed == \A i \in sorted : arr[i] = InOrder(arr0, <<1, N>>)[i]

\* ranges still to be sorted hold the values that belong there
Blocks == {r \in UNION {{gs[g].ar, gs[g].aq} \cup {gs[g].st[i] : i \in DOMAIN gs[g].st} : g \in {h \in DOMAIN gs : gs[h].pc \notin Over \cup {"mid", "sendpart"}}} : r # Empty}
Belong == \A r \in Blocks : InOrder(arr, r) = SubSeq(InOrder(arr0, <<1, N>>), r[1], r[2])

SortedAtEnd == ~Running => arr = Sort(arr0, <<1, N>>)
=============================================================================
