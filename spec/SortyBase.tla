------------------------------ MODULE SortyBase ------------------------------
(* Vocabulary of the specification of sorty: what it means to be in order, *)
(* to be a permutation, to be a correct answer of IsSorted* and Search, and *)
(* which Go types are accepted.                                             *)
(*                                                                          *)
(* Elements are represented by their rank: a natural number that says where *)
(* the element stands in the order of its type (two elements that compare   *)
(* equal have the same rank). NaNs have the rank NaN.                       *)
EXTENDS Integers, Sequences, FiniteSets

NaN == -1

NaNsmall == -1
NaNignore == 0
NaNlarge == 1

(* a < b under a NaNoption. NaNs are equal to each other. *)
Less(a, b, nan) ==
  IF a # NaN /\ b # NaN THEN a < b
  ELSE IF nan = NaNlarge THEN a # NaN
  ELSE IF nan = NaNsmall THEN b # NaN
  ELSE FALSE

Descent(s, i, nan) == Less(s[i], s[i - 1], nan)   \* for i in 2..Len(s)

Ascending(s, nan) == \A i \in 2 .. Len(s) : ~Descent(s, i, nan)

(* p says where each element of the output was in the input; 0: nowhere *)
IsPermutation(p, n) == /\ Len(p) = n
                       /\ \A i \in 1 .. n : p[i] \in 1 .. n
                       /\ Cardinality({p[i] : i \in 1 .. n}) = n

Arrange(s, p) == [i \in 1 .. Len(p) |-> s[p[i]]]

(* Go indices start with 0: index i is s[i+1] *)
GoodVerdict(s, ret, nan) ==
  IF Ascending(s, nan) THEN ret = 0
  ELSE ret > 0 /\ ret < Len(s) /\ Descent(s, ret + 1, nan)

-----------------------------------------------------------------------------
(* Numbers of up to 75 bits as 5 limbs of 15 bits, least significant first. *)
Limbs == 5
RECURSIVE BitLen(_)
BitLen(x) == IF x = 0 THEN 0 ELSE 1 + BitLen(x \div 2)
Bits(n) == LET nz == {i \in 1 .. Limbs : n[i] # 0} IN
           IF nz = {} THEN 0
           ELSE LET top == CHOOSE i \in nz : \A j \in nz : j <= i
                IN 15 * (top - 1) + BitLen(n[top])

(* Search(n, fn) where the lowest k with fn(k) is known (k = n if none) *)
MaxSearchCalls(n) == 4 * (Bits(n) + 2)

-----------------------------------------------------------------------------
(* Go types as terms [k |-> kind, e |-> element type (slices)] *)
Numeric == {"int", "int32", "int64", "uint", "uint32", "uint64", "uintptr", "float32", "float64"}

AcceptedSlice(t) ==
  t.k = "slice" /\
    \/ t.e.k \in Numeric \cup {"string", "ptr", "unsafe.Pointer"}
    \/ t.e.k = "slice" /\ t.e.e.k = "uint8"

AcceptedLen(t) == t.k = "slice" /\ t.e.k \in {"string", "slice"}

Accepted(fn, t) ==
  CASE fn \in {"SortSlice", "IsSortedSlice"} -> AcceptedSlice(t)
    [] fn \in {"SortLen", "IsSortedLen"} -> AcceptedLen(t)

-----------------------------------------------------------------------------
(* Tuning: which values of MaxGor and MaxLen* a program may start with *)
GoodParams(mg, ins, insfc, rec, recfc) ==
  /\ 0 < mg /\ mg < 4097
  /\ rec > recfc /\ recfc > 2 * ins
  /\ ins > insfc /\ insfc > 8

-----------------------------------------------------------------------------
(* Quantities: nesting depth of calls on one goroutine, heap allocation, work *)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

DepthBound(n) == 3 * (Log2(n) + 6)
\* element accesses for an ordinary input of n elements
WorkBound(n) == n * (10 * Log2(n) + 60)
HeapBound(n, mg) == IF mg <= 1 THEN 2048 ELSE 32768 + n \div 4
=============================================================================
