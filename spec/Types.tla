--------------------------------- MODULE Types ---------------------------------
(* Which arguments are accepted, and how their elements are compared:         *)
(* extractSK and the dispatch of SortSlice, SortLen and IsSorted* as coded    *)
(* (with the numbering of kinds that the code computes with), against         *)
(* Accepted of SortyBase and what the element type means.                     *)
EXTENDS SortyBase, TLC

CONSTANTS Depth,  \* nesting of types
          Bug

\* reflect.Kind numbers
KindNo == [invalid |-> 0, bool |-> 1, int |-> 2, int8 |-> 3, int16 |-> 4, int32 |-> 5, int64 |-> 6, uint |-> 7,
  uint8 |-> 8, uint16 |-> 9, uint32 |-> 10, uint64 |-> 11, uintptr |-> 12, float32 |-> 13, float64 |-> 14,
  complex64 |-> 15, complex128 |-> 16, array |-> 17, chan |-> 18, func |-> 19, interface |-> 20, map |-> 21,
  ptr |-> 22, slice |-> 23, string |-> 24, struct |-> 25, unsafe |-> 26]
Name(k) == IF k = "unsafe.Pointer" THEN "unsafe" ELSE k
No(k) == KindNo[Name(k)]
Bias == 100

Basic == {"bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64",
  "uintptr", "float32", "float64", "complex64", "complex128", "func", "interface", "map", "string",
  "struct", "unsafe.Pointer"}
RECURSIVE TypesOf(_)
TypesOf(d) ==
  {[k |-> b] : b \in Basic} \cup
  IF d = 0 THEN {} ELSE [k : {"slice", "array", "ptr", "chan"}, e : TypesOf(d - 1)]

VARIABLES t, word, fn   \* argument type, bytes of a word, function
vars == <<t, word, fn>>
Init == /\ t \in TypesOf(Depth) /\ word \in {4, 8}
        /\ fn \in {"SortSlice", "IsSortedSlice", "SortLen", "IsSortedLen"}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* the kind extractSK returns
Extract ==
  IF t.k # "slice" THEN 0
  ELSE LET e == t.e IN
       CASE e.k \in {"ptr", "unsafe.Pointer"} -> KindNo.unsafe
         [] e.k \in {"uintptr", "uint"} -> KindNo.uint32 + word \div 8
         [] e.k = "int" -> KindNo.int32 + word \div 8
         [] e.k = "slice" -> (IF Bug = "nobias" THEN 0 ELSE Bias) + No(e.e.k)
         [] e.k \in {"int32", "int64", "uint32", "uint64", "float32", "float64", "string"} -> No(e.k)
         [] OTHER -> 0
\* the routine the call ends in, "panic" if none
Routine ==
  LET k == Extract IN
  IF fn \in {"SortSlice", "IsSortedSlice"} THEN
    CASE k = KindNo.int32 -> "I4" [] k = KindNo.int64 -> "I8" [] k = KindNo.uint32 -> "U4" [] k = KindNo.uint64 -> "U8"
      [] k = KindNo.float32 -> "F4" [] k = KindNo.float64 -> "F8" [] k = KindNo.unsafe -> "P"
      [] k = Bias + KindNo.uint8 -> "B" [] k = KindNo.string -> "S" [] OTHER -> "panic"
  ELSE CASE k = KindNo.string -> "LenS" [] k >= Bias -> "LenB" [] OTHER -> "panic"

\* how elements of type e must be compared: sign and size for numbers
Meaning(e) ==
  IF fn \in {"SortLen", "IsSortedLen"} THEN IF e.k = "string" THEN "LenS" ELSE "LenB"
  ELSE CASE e.k = "int32" -> "I4" [] e.k = "int64" -> "I8"
         [] e.k = "int" -> IF word = 8 THEN "I8" ELSE "I4"
         [] e.k = "uint32" -> "U4" [] e.k = "uint64" -> "U8"
         [] e.k \in {"uint", "uintptr"} -> IF word = 8 THEN "U8" ELSE "U4"
         [] e.k = "float32" -> "F4" [] e.k = "float64" -> "F8"
         [] e.k \in {"ptr", "unsafe.Pointer"} -> "P"
         [] e.k = "string" -> "S" [] e.k = "slice" -> "B"
Dispatch == Routine = IF Accepted(fn, t) THEN Meaning(t.e) ELSE "panic"
=============================================================================
