------------------------------- MODULE ForkSort -------------------------------
(* The fork/join protocol of sorty: how one call of sort*() / Sort() shares   *)
(* its range between goroutines, with the counter nGor, the live quota MaxGor *)
(* and one unbuffered channel that carries partition results and, last of     *)
(* all, the end signal. One action per shared-memory operation of the code.   *)
(*                                                                            *)
(* What happens inside ranges is abstract: partitioning a range of n elements *)
(* splits it anywhere; sorting a range that is not long makes it sorted. The  *)
(* elements are 1..N, a range is <<lo, hi>>. A goroutine owns a range while   *)
(* it may read or write its elements.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N,        \* number of elements
          Rec,      \* MaxLenRec
          MGs,      \* values MaxGor can be set to
          Changes,  \* how often the user can set it during the call
          Bug       \* "none", or the name of a defect, to see that the properties notice it

VARIABLES mg,      \* MaxGor
          chg,     \* changes left
          mgmax,   \* ghost: largest value of MaxGor during the call
          nGor,    \* counter of the call
          gs,      \* goroutines: sequence of [pc, ar, aq, st, n, k]
          sorted,  \* ghost: elements in their final place
          chans    \* ghost: channels made

vars == <<mg, chg, mgmax, nGor, gs, sorted, chans>>

Size(r) == r[2] - r[1] + 1
Elems(r) == r[1] .. r[2]
Empty == <<1, 0>>
Long(r) == Size(r) > Rec
Dual(r) == Size(r) >= 2 * (Rec + 1)

\* possible results of partitioning r: <<shorter range, longer range>>
Splits(r) == {LET a == <<r[1], k>>
                  b == <<k + 1, r[2]>>
              IN IF Size(a) < Size(b) THEN <<a, b>> ELSE <<b, a>> : k \in r[1] .. r[2] - 1}

\* the middle half of r, the rest are quarters at both ends
Mid(r) == LET m == Size(r) \div 2
              l == m \div 2
              h == (m + Size(r)) \div 2
          IN <<r[1] + l, r[1] + h - 1>>

G(pc, ar) == [pc |-> pc, ar |-> ar, aq |-> Empty, st |-> <<>>, n |-> 0, k |-> 0]

Main == 1

Init ==
  /\ mg \in MGs /\ chg = Changes /\ mgmax = mg
  /\ nGor = 0
  /\ gs = <<G("start", <<1, N>>)>>
  /\ sorted = {} /\ chans = 0

Set(g, r) == gs' = [gs EXCEPT ![g] = r]
At(g, pc) == gs[g].pc = pc
SetAndGo(g, r, new) == gs' = Append([gs EXCEPT ![g] = r], new)

----------------------------------------------------------------------------
(* sort*(): the caller *)

\* if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1
Start(g) ==
  /\ At(g, "start")
  /\ IF ~Dual(gs[g].ar) \/ mg <= 1
     THEN /\ Set(g, [gs[g] EXCEPT !.pc = IF Long(gs[g].ar) THEN "long" ELSE "leaf",
                                  !.k = 1])   \* k = 1: no syncVar
          /\ UNCHANGED <<nGor, chans>>
     ELSE /\ nGor' = 2 /\ chans' = chans + 1
          /\ Set(g, [gs[g] EXCEPT !.pc = "part"])
  /\ UNCHANGED <<mg, chg, mgmax, sorted>>

\* go gPartOne(mid)
GoPart(g) ==
  /\ At(g, "part")
  /\ SetAndGo(g, [gs[g] EXCEPT !.pc = "quarters"], G("mid", Mid(gs[g].ar)))
  /\ UNCHANGED <<mg, chg, mgmax, nGor, sorted, chans>>

\* partTwo done, <-ch
WaitPart(g) == At(g, "quarters") /\ Set(g, [gs[g] EXCEPT !.pc = "recvpart"])
               /\ UNCHANGED <<mg, chg, mgmax, nGor, sorted, chans>>

\* partOne of the middle done, ch <- k
SendPart(g) == At(g, "mid") /\ Set(g, [gs[g] EXCEPT !.pc = "sendpart", !.ar = Empty])
               /\ UNCHANGED <<mg, chg, mgmax, nGor, sorted, chans>>

\* the channel: receiver g, sender h. Values are partition results and end signals.
Rendezvous(g, h) ==
  /\ gs[g].pc \in {"recvpart", "recvdone"} /\ gs[h].pc \in {"sendpart", "senddone"}
  /\ gs' = [gs EXCEPT ![g].pc = IF gs[g].pc = "recvpart"
                                THEN IF gs[h].pc = "sendpart" THEN "gap" ELSE "mixup"
                                ELSE IF gs[h].pc = "senddone" THEN "ret" ELSE "mixup",
                      ![h].pc = "end"]
  /\ UNCHANGED <<mg, chg, mgmax, nGor, sorted, chans>>

\* gap closed; shorter range to a new goroutine, which takes the place of the partitioning one
GapGo(g) ==
  /\ At(g, "gap")
  /\ \E s \in Splits(gs[g].ar) :
       /\ Long(s[1])
       /\ SetAndGo(g, [gs[g] EXCEPT !.pc = "more", !.ar = s[2]], G("glong", s[1]))
       /\ nGor' = IF Bug = "addOnHandover" THEN nGor + 1 ELSE nGor
  /\ UNCHANGED <<mg, chg, mgmax, sorted, chans>>

\* or the place is given back, shorter range sorted here
GapDec(g) ==
  /\ At(g, "gap")
  /\ \E s \in Splits(gs[g].ar) :
       /\ ~Long(s[1])
       /\ nGor' = IF Bug = "noDecAfterPart" THEN nGor ELSE nGor - 1
       /\ sorted' = sorted \cup Elems(s[1])
       /\ Set(g, [gs[g] EXCEPT !.pc = "more", !.ar = s[2]])
  /\ UNCHANGED <<mg, chg, mgmax, chans>>

\* if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv)
More(g) ==
  /\ At(g, "more")
  /\ Set(g, [gs[g] EXCEPT !.pc = IF Dual(gs[g].ar) THEN "load" ELSE "long", !.aq = Empty])
  /\ UNCHANGED <<mg, chg, mgmax, nGor, sorted, chans>>

\* atomic.AddUint64(&sv.nGor, -1) != 0
MainDec(g) ==
  /\ g = Main /\ At(g, "done")
  /\ IF gs[g].k = 1 THEN UNCHANGED nGor /\ Set(g, [gs[g] EXCEPT !.pc = "ret"])
     ELSE /\ nGor' = nGor - 1
          /\ Set(g, [gs[g] EXCEPT !.pc = IF nGor' # 0 THEN "recvdone" ELSE "ret"])
  /\ UNCHANGED <<mg, chg, mgmax, sorted, chans>>

----------------------------------------------------------------------------
(* gorFull(): reserve a place if there is one. ar, aq both long; in sort*() aq is Empty *)

\* n := atomic.LoadUint64(&sv.nGor)
Load(g) == At(g, "load") /\ Set(g, [gs[g] EXCEPT !.pc = "mg", !.n = nGor])
           /\ UNCHANGED <<mg, chg, mgmax, nGor, sorted, chans>>

Full(g) == IF gs[g].aq = Empty THEN [gs[g] EXCEPT !.pc = "long"]
           ELSE [gs[g] EXCEPT !.pc = "long", !.st = <<gs[g].ar>> \o @, !.ar = gs[g].aq, !.aq = Empty]
Got(g) == [gs[g] EXCEPT !.pc = IF gs[g].aq = Empty THEN "part" ELSE "golong"]

Cached == CHOOSE m \in MGs : m >= 2 /\ \A k \in MGs : k >= 2 => m <= k \* for a defect only

\* if mg := MaxGor; n >= mg
Quota(g) == At(g, "mg") /\ Set(g, IF gs[g].n >= (IF Bug = "cached" THEN Cached ELSE mg) THEN Full(g)
                                  ELSE [gs[g] EXCEPT !.pc = IF Bug = "addNotCas" THEN "add" ELSE "cas"])
            /\ UNCHANGED <<mg, chg, mgmax, nGor, sorted, chans>>

\* atomic.CompareAndSwapUint64(&sv.nGor, n, n+1)
Cas(g) == /\ At(g, "cas")
          /\ IF nGor = gs[g].n THEN nGor' = nGor + 1 /\ Set(g, Got(g))
             ELSE UNCHANGED nGor /\ Set(g, [gs[g] EXCEPT !.pc = "load"])
          /\ UNCHANGED <<mg, chg, mgmax, sorted, chans>>

Add(g) == /\ At(g, "add") /\ nGor' = nGor + 1 /\ Set(g, Got(g))
          /\ UNCHANGED <<mg, chg, mgmax, sorted, chans>>

----------------------------------------------------------------------------
(* long*(): sorts ar, and then what is on the stack of g *)

\* partition ar; shorter range not long: sorted here
LongLeaf(g) ==
  /\ At(g, "long")
  /\ \E s \in Splits(gs[g].ar) :
       /\ ~Long(s[1])
       /\ sorted' = sorted \cup Elems(s[1])
       /\ Set(g, [gs[g] EXCEPT !.pc = IF Long(s[2]) THEN "long" ELSE "leaf", !.ar = s[2]])
  /\ UNCHANGED <<mg, chg, mgmax, nGor, chans>>

\* both long: ask for a goroutine, or recurse if there is no syncVar
LongBoth(g) ==
  /\ At(g, "long")
  /\ \E s \in Splits(gs[g].ar) :
       /\ Long(s[1])
       /\ Set(g, IF gs[g].k = 1
                 THEN [gs[g] EXCEPT !.st = <<s[2]>> \o @, !.ar = s[1]]
                 ELSE [gs[g] EXCEPT !.pc = "load", !.ar = s[2], !.aq = s[1]])
  /\ UNCHANGED <<mg, chg, mgmax, nGor, sorted, chans>>

\* go gLong(ar, sv); ar = aq
GoLong(g) ==
  /\ At(g, "golong")
  /\ SetAndGo(g, [gs[g] EXCEPT !.pc = "long", !.ar = gs[g].aq, !.aq = Empty], G("glong", gs[g].ar))
  /\ UNCHANGED <<mg, chg, mgmax, nGor, sorted, chans>>

GLong(g) == At(g, "glong") /\ Set(g, [gs[g] EXCEPT !.pc = "long"])
            /\ UNCHANGED <<mg, chg, mgmax, nGor, sorted, chans>>

\* the last range that is not long, return from one long*()
Leaf(g) ==
  /\ At(g, "leaf")
  /\ sorted' = sorted \cup Elems(gs[g].ar)
  /\ Set(g, IF gs[g].st = <<>> THEN [gs[g] EXCEPT !.pc = "done", !.ar = Empty]
            ELSE [gs[g] EXCEPT !.pc = "long", !.ar = Head(gs[g].st), !.st = Tail(gs[g].st)])
  /\ UNCHANGED <<mg, chg, mgmax, nGor, chans>>

\* gLong*(): if atomic.AddUint64(&sv.nGor, -1) == 0 { sv.done <- 0 }
GDec(g) ==
  /\ g # Main /\ At(g, "done")
  /\ nGor' = nGor - 1
  /\ Set(g, [gs[g] EXCEPT !.pc = IF nGor' = 0 /\ Bug # "noSignal" THEN "senddone" ELSE "end"])
  /\ UNCHANGED <<mg, chg, mgmax, sorted, chans>>

----------------------------------------------------------------------------
Running == gs[Main].pc # "ret"

SetMaxGor ==
  /\ Running /\ chg > 0 /\ chg' = chg - 1
  /\ mg' \in MGs \ {mg} /\ mgmax' = IF mg' > mgmax THEN mg' ELSE mgmax
  /\ UNCHANGED <<nGor, gs, sorted, chans>>

Do(g) == \/ Start(g) \/ GoPart(g) \/ WaitPart(g) \/ SendPart(g) \/ GapGo(g) \/ GapDec(g)
         \/ More(g) \/ MainDec(g) \/ Load(g) \/ Quota(g) \/ Cas(g) \/ Add(g)
         \/ LongLeaf(g) \/ LongBoth(g) \/ GoLong(g) \/ GLong(g) \/ Leaf(g) \/ GDec(g)
         \/ \E h \in DOMAIN gs : Rendezvous(g, h)

Next == SetMaxGor \/ \E g \in DOMAIN gs : Do(g)

Spec == Init /\ [][Next]_vars
\* there are at most as many goroutines as ranges, a small bound suffices for fairness
FairSpec == Spec /\ \A g \in 1 .. 2 * N : WF_vars(g \in DOMAIN gs /\ Do(g))

----------------------------------------------------------------------------
(* The properties *)

Waiting == {"recvpart", "recvdone", "sendpart", "senddone"}
Over == {"end", "ret", "mixup"}

\* ranges a goroutine may touch now or later without further synchronisation
Owned(g) ==
  LET x == gs[g] IN
  IF x.pc \in Over THEN {}
  ELSE (IF x.pc \in {"quarters", "recvpart"} THEN Elems(x.ar) \ Elems(Mid(x.ar)) ELSE Elems(x.ar))
       \cup Elems(x.aq) \cup UNION {Elems(x.st[i]) : i \in DOMAIN x.st}

\* what it is touching
Working == {g \in DOMAIN gs : gs[g].pc \notin Waiting \cup Over}

\* C06, C10: goroutines own disjoint ranges; main gets the middle back with the result
Disjoint == \A g, h \in DOMAIN gs : g # h => Owned(g) \cap Owned(h) = {}

\* C01..C05: no element is forgotten, none is sorted twice
Covered ==
  /\ 1 .. N = sorted \cup UNION {Owned(g) : g \in DOMAIN gs}
              \cup UNION {IF gs[g].pc \in {"quarters", "recvpart"} THEN Elems(Mid(gs[g].ar)) ELSE {} : g \in DOMAIN gs}
  /\ \A g \in DOMAIN gs : Owned(g) \cap sorted = {}

\* C07, C12
Quotas == Cardinality(Working) <= IF mgmax < 1 THEN 1 ELSE mgmax

\* the counter counts goroutines and the place of the partitioning one
Counter == Running /\ chans > 0 =>
  nGor = Cardinality({g \in DOMAIN gs : g # Main /\ gs[g].pc \notin {"end", "senddone", "mid", "sendpart"}})
         + (IF gs[Main].pc \in {"recvdone"} THEN 0 ELSE 1)
         + (IF gs[Main].pc \in {"part", "quarters", "recvpart", "gap"} THEN 1 ELSE 0)
         + Cardinality({g \in DOMAIN gs : gs[g].pc = "golong"})

\* C08
OneChannel == chans <= 1
SoloIfSmall == (mgmax <= 1 \/ N < 2 * (Rec + 1)) => chans = 0 /\ Len(gs) = 1

\* C18
Portions == \A g \in DOMAIN gs : gs[g].pc \in {"mid", "glong"} => Size(gs[g].ar) > Rec
Helped == (Changes = 0 /\ mg >= 2 /\ N >= 2 * (Rec + 1) /\ ~Running) => Len(gs) > 1

\* C09
NoMixup == \A g \in DOMAIN gs : gs[g].pc # "mixup"
Complete == ~Running => /\ sorted = 1 .. N
                        /\ \A g \in DOMAIN gs : g # Main => gs[g].pc = "end"
NoDeadlock == Running => ENABLED (\E g \in DOMAIN gs : Do(g))
Finishes == <>[](~Running)
=============================================================================
