------------------------------- MODULE ForkObey -------------------------------
(* The protocol of sorty respects changes of MaxGor in the sense of Obey, with *)
(* "owns a range" for busy. Caching MaxGor at the start of a call (Bug =       *)
(* "cached") is noticed.                                                       *)
EXTENDS ForkSort

VARIABLES surv,    \* goroutines that were busy at the last change
          first,   \* goroutines that have started others since
          changed, \* has there been a change?
          stale,   \* blame
          raised   \* MaxGor was 2 or more, and is 3 or more since before the end of the first partitioning

ovars == <<surv, first, changed, stale, raised>>

\* spawning goroutines are not necessarily busy, see Obey
Busy == {g \in DOMAIN gs : Owned(g) # {} \/ gs[g].pc \in {"part", "golong"}}
Mx(a, b) == IF a < b THEN b ELSE a

OInit == Init /\ surv = {} /\ first = {} /\ changed = FALSE /\ stale = FALSE /\ raised = (mg >= 3)

\* the first partitioning is not over
Early == gs[Main].pc = "start" \/ (gs[Main].pc \in {"part", "quarters", "recvpart"} /\ gs[Main].ar = <<1, N>> /\ mg >= 2)

Change ==
  /\ SetMaxGor
  /\ surv' = Busy /\ first' = {} /\ changed' = TRUE
  /\ raised' = (mg' >= 3 /\ (raised \/ (mg >= 2 /\ Early)))
  /\ UNCHANGED stale

Spawner == CHOOSE g \in DOMAIN gs : gs'[g] # gs[g]
ODo ==
  /\ \E g \in DOMAIN gs : Do(g)
  /\ IF Len(gs') = Len(gs) \/ ~changed THEN UNCHANGED <<first, stale>>
     ELSE /\ first' = first \cup {Spawner}
          /\ stale' = (stale \/ Cardinality(Busy') > Mx(Mx(1, mg), Cardinality(Busy' \cap surv)) + Cardinality(first'))
  /\ UNCHANGED <<surv, changed, raised>>

ONext == Change \/ ODo
OSpec == OInit /\ [][ONext]_<<vars, ovars>>

NotStale == ~stale
NotIgnored == raised /\ N >= 4 * (Rec + 1) /\ gs[Main].pc \in {"done", "recvdone", "ret"} 
              => Len(gs) + Cardinality({g \in DOMAIN gs : gs[g].pc = "golong"}) >= 4
=============================================================================
