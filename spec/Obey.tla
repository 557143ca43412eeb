--------------------------------- MODULE Obey ---------------------------------
(* What it means that a change of MaxGor takes effect during a call (C21), as  *)
(* predicates on the events of a behaviour (see Goroutines). ForkObey shows    *)
(* that the protocol of sorty satisfies them.                                  *)
(*                                                                             *)
(* A goroutine is busy at some time if it still is to access elements or to    *)
(* start goroutines. A goroutine can have decided to start another one before  *)
(* a change and do it afterwards. Apart from one such start by each goroutine, *)
(* goroutines are only started after a change if then no more than MaxGor (or  *)
(* as many as were busy at the change, and still are) are busy.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

LOCAL Mx(a, b) == IF a < b THEN b ELSE a

\* [t0: first goroutine's number, born, last: indices of events by goroutine, cl: calls, sp: indices of spawns,
\*  sm: indices of changes, bg: indices of "begin" by call]
Digest(ev, ng, nc) ==
  FoldLeft(LAMBDA d, e :
    LET i == d.i + 1
        x == [d EXCEPT !.i = i]
    IN CASE e[1] = "root"  -> [x EXCEPT !.cl[e[2]] = e[3], !.born[e[2]] = i, !.root[e[3]] = e[2]]
         [] e[1] = "begin" -> [x EXCEPT !.bg[e[3]] = i]
         [] e[1] = "spawn" -> [x EXCEPT !.cl[e[3]] = d.cl[e[2]], !.born[e[3]] = i, !.last[e[2]] = i, !.sp = Append(@, i)]
         [] e[1] = "seg"   -> IF e[3] # <<>> \/ e[4] # <<>> THEN [x EXCEPT !.last[e[2]] = i] ELSE x
         [] e[1] = "setmg" -> [x EXCEPT !.sm = Append(@, i)]
         [] OTHER -> x,
    [i |-> 0, cl |-> [g \in 1 .. ng |-> 0], born |-> [g \in 1 .. ng |-> 0], last |-> [g \in 1 .. ng |-> 0],
     root |-> [c \in 1 .. nc |-> 0], bg |-> [c \in 1 .. nc |-> 0], sp |-> <<>>, sm |-> <<>>],
    ev)

Busy(d, c, i) == {g \in DOMAIN d.cl : d.cl[g] = c /\ d.born[g] <= i /\ d.last[g] > i}

\* the spawn at index s does not respect the change before it
Stale(ev, d, s) ==
  LET c == d.cl[ev[s][2]]
      before == {i \in DOMAIN d.sm : d.sm[i] < s}
  IN  before # {} /\
      LET i == d.sm[Cardinality(before)]
          b == Busy(d, c, s)
          first == {ev[d.sp[j]][2] : j \in {k \in DOMAIN d.sp : d.sp[k] > i /\ d.sp[k] <= s /\ d.cl[ev[d.sp[k]][2]] = c}}
      IN  i > d.bg[c] /\ Cardinality(b) > Mx(Mx(1, ev[i][2]), Cardinality(b \cap Busy(d, c, i))) + Cardinality(first)

\* the last synchronisation of g before its spawn at index s
Decided(ev, g, s) ==
  LET y == {i \in 1 .. s - 1 : ev[i][1] \in {"acq", "rel"} /\ ev[i][2] = g} IN
  IF y = {} THEN 0 ELSE CHOOSE i \in y : \A j \in y : j <= i

\* MaxGor is at least 2 all the time, and 3 from some time on when at most half of the elements can have been
\* accessed, so that the first partitioning is not over: a third goroutine is started, and before the caller has
\* done its part (the goroutine that starts it can have taken the place and been held up). calls, mg0: see TraceGor
Ignored(ev, d, calls, mg0) ==
  /\ Len(calls) = 1 /\ calls[1].n >= 4 * (calls[1].rec + 1)
  /\ mg0 >= 2 /\ \A i \in DOMAIN d.sm : ev[d.sm[i]][2] >= 2
  /\ LET low == {i \in DOMAIN d.sm : ev[d.sm[i]][2] < 3}
         m == IF low = {} THEN 0 ELSE CHOOSE i \in low : \A j \in low : j <= i
         since == IF low = {} THEN IF mg0 >= 3 THEN 0
                                   ELSE IF d.sm = <<>> THEN -1 ELSE ev[d.sm[1]][3]
                  ELSE IF m = Len(d.sm) THEN -1 ELSE ev[d.sm[m + 1]][3]
     IN since >= 0 /\ 2 * since <= calls[1].n
  /\ \/ Len(d.sp) < 3
     \/ Decided(ev, ev[d.sp[3]][2], d.sp[3]) > d.last[d.root[1]]

\* MaxGor no longer limits anything after some moment, and ranges divide evenly since the input is in order:
\* no goroutine keeps more to itself than the ranges it has already put off, reduced to about MaxLenRec each. That
\* is the number of elements that it is the last to access.
RECURSIVE LgFloor(_)
LgFloor(n) == IF n <= 1 THEN 0 ELSE 1 + LgFloor(n \div 2)
KeptBound(n, rec) == 3 * (LgFloor(n \div rec) + 3) * (rec + 1)
Kept(ev, d, ng, calls, mg0) ==
  /\ Len(calls) = 1 /\ calls[1].asc /\ mg0 >= 2
  /\ Len(d.sm) = 1 /\ ev[d.sm[1]][2] >= calls[1].n
  /\ LET in(a) == UNION {IF a[2 * i - 1] > calls[1].hi THEN {} ELSE a[2 * i - 1] .. a[2 * i] : i \in 1 .. Len(a) \div 2}
         f == FoldLeft(LAMBDA s, e :
                IF e[1] # "seg" \/ (e[3] = <<>> /\ e[4] = <<>>) THEN s
                ELSE LET x == in(e[3]) \cup in(e[4])
                         m == Cardinality(x \ s.seen)
                     IN  IF m = 0 THEN s ELSE [seen |-> s.seen \cup x, cnt |-> [s.cnt EXCEPT ![e[2]] = @ + m]],
              [seen |-> {}, cnt |-> [g \in 1 .. ng |-> 0]],
              Reverse(SubSeq(ev, d.sm[1] + 1, Len(ev))))
     IN \E g \in 1 .. ng : f.cnt[g] > KeptBound(calls[1].n, calls[1].rec)

Disobeyed(ev, ng, calls, mg0) ==
  LET d == Digest(ev, ng, Len(calls)) IN
  (IF \E k \in DOMAIN d.sp : Stale(ev, d, d.sp[k]) THEN {"stale"} ELSE {})
  \cup (IF Ignored(ev, d, calls, mg0) THEN {"ignored"} ELSE {})
  \cup (IF Kept(ev, d, ng, calls, mg0) THEN {"kept"} ELSE {})
=============================================================================
