----------------------------------- MODULE Gc -----------------------------------
(* Why pointers must be moved as pointers. Objects are reachable through the  *)
(* slots of a slice only. A sorting goroutine exchanges slots while a         *)
(* concurrent collector marks: it scans the goroutine's stack once, the slots *)
(* one after another, and finally frees what is not marked. Moving a pointer  *)
(* as a pointer has two effects: temporaries are roots, and a write during    *)
(* marking shades what is overwritten and what is written (Go's hybrid        *)
(* barrier). Moving it as an integer has none of them.                        *)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS N,           \* slots, objects
          AsPointers   \* how elements are moved

VARIABLES slot,        \* slot -> object
          tx, ty,      \* temporaries of the sorting goroutine, 0: none
          i, j, pc,    \* the exchange in progress
          phase,       \* idle, mark, swept
          todo,        \* slots that are not scanned yet
          stk,         \* is the stack scanned?
          marked
vars == <<slot, tx, ty, i, j, pc, phase, todo, stk, marked>>
Objects == 1 .. N

Init == /\ slot = [s \in Objects |-> s]
        /\ tx = 0 /\ ty = 0 /\ i = 0 /\ j = 0 /\ pc = "none"
        /\ phase = "idle" /\ todo = {} /\ stk = FALSE /\ marked = {}

\* the sorting goroutine
Load == /\ pc = "none"
        /\ \E a, b \in Objects : a # b /\ i' = a /\ j' = b /\ tx' = slot[a] /\ ty' = slot[b]
        /\ pc' = "first"
        /\ UNCHANGED <<slot, phase, todo, stk, marked>>
Write(s, x) ==
  /\ slot' = [slot EXCEPT ![s] = x]
  /\ marked' = IF AsPointers /\ phase = "mark" THEN marked \cup {slot[s]} \cup (IF stk THEN {} ELSE {x}) ELSE marked
First == pc = "first" /\ Write(i, ty) /\ pc' = "second" /\ UNCHANGED <<tx, ty, i, j, phase, todo, stk>>
Second == /\ pc = "second" /\ Write(j, tx) /\ pc' = "none"
          /\ tx' = 0 /\ ty' = 0 /\ i' = 0 /\ j' = 0
          /\ UNCHANGED <<phase, todo, stk>>

\* the collector
Start == /\ phase = "idle" /\ phase' = "mark"
         /\ todo' = Objects /\ stk' = FALSE /\ marked' = {}
         /\ UNCHANGED <<slot, tx, ty, i, j, pc>>
ScanStack == /\ phase = "mark" /\ ~stk /\ stk' = TRUE
             /\ marked' = IF AsPointers THEN marked \cup ({tx, ty} \ {0}) ELSE marked
             /\ UNCHANGED <<slot, tx, ty, i, j, pc, phase, todo>>
ScanSlot == /\ phase = "mark"
            /\ \E s \in todo : todo' = todo \ {s} /\ marked' = marked \cup {slot[s]}
            /\ UNCHANGED <<slot, tx, ty, i, j, pc, phase, stk>>
Sweep == /\ phase = "mark" /\ todo = {} /\ stk /\ phase' = "swept"
         /\ UNCHANGED <<slot, tx, ty, i, j, pc, todo, stk, marked>>
Again == phase = "swept" /\ phase' = "idle" /\ marked' = {} /\ UNCHANGED <<slot, tx, ty, i, j, pc, todo, stk>>
Kept == phase = "swept" => Objects \subseteq marked   \* all objects are reachable
Next == Load \/ First \/ Second \/ Start \/ ScanStack \/ ScanSlot \/ Sweep \/ Again
Spec == Init /\ [][Next]_vars

\* nothing is lost from the slice except what a temporary holds
Present == {slot[s] : s \in Objects} \cup ({tx, ty} \ {0}) = Objects
=============================================================================
