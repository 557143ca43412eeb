--------------------------------- MODULE NaNs ---------------------------------
(* What sortF4, sortF8 do about NaNs before sorting, and the verdict of       *)
(* isSortedF4, isSortedF8, step by step. A NaN compares false with            *)
(* everything, itself included; Less of SortyBase is the order users see.     *)
EXTENDS SortyBase, TLC

CONSTANTS MaxN, MaxKey, Bug

VARIABLES a0, a,   \* initial and current contents: sequences of ranks, NaN
          id,      \* where the elements were
          opt,     \* NaNoption
          l, h,    \* indices of the loop, starting with 0
          pc,
          verdict  \* of IsSortedSlice for a0
vars == <<a0, a, id, opt, l, h, pc, verdict>>

N == Len(a0)
At(f, i) == f[i + 1]
IsNaN(x) == x = NaN
Lt(x, y) == ~IsNaN(x) /\ ~IsNaN(y) /\ x < y
Ge(x, y) == ~IsNaN(x) /\ ~IsNaN(y) /\ x >= y

----------------------------------------------------------------------------
\* isSortedF*
RECURSIVE SkipEnd(_, _), SkipStart(_, _), Back(_, _), Scan(_, _, _, _)
SkipEnd(f, i) == IF 0 <= i /\ IsNaN(At(f, i)) THEN SkipEnd(f, i - 1) ELSE i
SkipStart(f, i) == IF i <= Len(f) - 1 /\ IsNaN(At(f, i)) THEN SkipStart(f, i + 1) ELSE i
Back(f, i) == IF IsNaN(At(f, i - 1)) THEN Back(f, i - 1) ELSE i
Scan(f, o, i, from) ==
  IF i <= from THEN 0
  ELSE IF ~Ge(At(f, i), At(f, i - 1))
       THEN IF o = NaNsmall /\ Bug # "noback" THEN Back(f, i) ELSE i
       ELSE Scan(f, o, i - 1, from)
IsSortedF(f, o) ==
  LET top == IF o = NaNlarge THEN SkipEnd(f, Len(f) - 1) ELSE Len(f) - 1
      bot == IF o = NaNsmall THEN SkipStart(f, 0) ELSE 0
  IN Scan(f, o, top, bot)

----------------------------------------------------------------------------
Init == /\ \E n \in 0 .. MaxN : a0 \in [1 .. n -> NaN .. MaxKey]
        /\ a = a0 /\ id = [i \in 1 .. Len(a0) |-> i]
        /\ opt \in {NaNsmall, NaNignore, NaNlarge}
        /\ l = 0 /\ h = Len(a0) - 1
        /\ pc = "part"
        /\ verdict = IsSortedF(a0, opt)

Exchange == /\ a' = [a EXCEPT ![l + 1] = a[h + 1], ![h + 1] = a[l + 1]]
            /\ id' = [id EXCEPT ![l + 1] = id[h + 1], ![h + 1] = id[l + 1]]
Keep == UNCHANGED <<a, id>>
Part ==
  /\ pc = "part"
  /\ CASE opt = NaNlarge /\ l <= h ->  \* move NaNs to the end
            IF IsNaN(At(a, h)) THEN h' = h - 1 /\ l' = l /\ Keep
            ELSE /\ l' = l + 1
                 /\ IF IsNaN(At(a, l)) THEN Exchange /\ h' = h - 1 ELSE Keep /\ h' = h
       [] opt = NaNsmall /\ l <= h ->  \* move NaNs to the start
            IF IsNaN(At(a, l)) THEN l' = l + 1 /\ h' = h /\ Keep
            ELSE /\ h' = h - 1
                 /\ IF IsNaN(At(a, h)) THEN Exchange /\ l' = l + 1 ELSE Keep /\ l' = l
       [] OTHER -> UNCHANGED <<l, h, a, id>>
  /\ pc' = IF opt # NaNignore /\ l <= h THEN "part" ELSE "sort"
  /\ UNCHANGED <<a0, opt, verdict>>

\* the part that is then sorted: first and last index
Lo == IF opt = NaNsmall THEN l ELSE 0
Hi == IF opt = NaNlarge THEN IF Bug = "cut" THEN h - 1 ELSE h ELSE N - 1
\* sorting itself is the subject of QuickSort.tla
Rest ==
  /\ pc = "sort" /\ pc' = "done"
  /\ LET pos == {i \in 1 .. N : i - 1 \in Lo .. Hi}
         s == SortSeq([i \in 1 .. Hi - Lo + 1 |-> <<a[Lo + i], id[Lo + i]>>], LAMBDA x, y : Lt(x[1], y[1]))
     IN /\ a' = [i \in 1 .. N |-> IF i \in pos THEN s[i - Lo][1] ELSE a[i]]
        /\ id' = [i \in 1 .. N |-> IF i \in pos THEN s[i - Lo][2] ELSE id[i]]
  /\ UNCHANGED <<a0, opt, l, h, verdict>>
Next == Part \/ Rest
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Valid == opt # NaNignore \/ \A i \in 1 .. N : a0[i] # NaN
\* NaNs are out of what is sorted, nothing else is
Separated == pc \in {"sort", "done"} /\ opt # NaNignore => \A i \in 1 .. N : (i - 1 \in Lo .. Hi) = ~IsNaN(a[i])
Moved == /\ IsPermutation(id, N) /\ a = Arrange(a0, id)
\* C02
Sorted == pc = "done" /\ Valid => Ascending(a, opt)
\* C13
Verdict == Valid => GoodVerdict(a0, verdict, opt)
Finishes == <>(pc = "done")
=============================================================================
