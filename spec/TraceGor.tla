------------------------------- MODULE TraceGor -------------------------------
(* Judges behaviours of the real code, recorded under a controlled scheduler  *)
(* (one per line of the file), by running them through Goroutines, and their  *)
(* results by the contract of SortyBase. The state is the line number.        *)
EXTENDS Goroutines, Obey, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLE l

Run(t) ==
  FoldLeft(Step, Fresh(t.ng, t.no, t.calls, t.nl, t.mg0), t.ev)

When(b, name) == IF b THEN {} ELSE {name}

VerdictClauses(c) ==
  When(GoodVerdict(c.key, c.ret, c.nan), "verdict")
  \cup When(c.b /\ c.g /\ c.same, "modified")
  \cup When(c.oob = 0, "indices")

ResultClauses(c) ==
  LET p == IsPermutation(c.perm, Len(c.key)) IN
  When(p, "permutation")
  \cup When(p => Ascending(Arrange(c.key, c.perm), c.nan), "order")
  \cup When(c.b, "contents")
  \cup When(c.g, "neighbours")
  \cup When(c.oob = 0, "indices")

Clauses(t) ==
  LET f == Run(t)
      r == f.bad
           \cup (IF Prop = "C21" THEN Disobeyed(t.ev, t.ng, t.calls, t.mg0) ELSE {})
           \cup (IF Prop = "C18" THEN Sharing(f) ELSE {})
           \cup (IF Prop = "C20" /\ t.acc > WorkBound(t.calls[1].n) THEN {"work"} ELSE {}) IN
  r \cup UNION {IF Prop \in {"C18", "C20", "C21"} THEN {} \* results are not recorded
                ELSE IF {"stuck", "over", "panics", "unfinished"} \cap r = {}
                  THEN IF ~t.calls[i].iss THEN ResultClauses(t.calls[i])
                       ELSE VerdictClauses(IF \A j \in DOMAIN t.calls : t.calls[j].iss THEN t.calls[i]
                                           ELSE [t.calls[i] EXCEPT !.same = TRUE])
                  ELSE When(t.calls[i].g, "neighbours") \cup When(t.calls[i].oob = 0, "indices")
                : i \in DOMAIN t.calls}

Finish == {"stuck", "over", "panics", "unfinished"}
Sorted == {"permutation", "order"}

Relevant ==
  CASE Prop \in {"C01", "C02", "C05"} -> Sorted \cup {"panics"}
    [] Prop \in {"C03", "C17"} -> Sorted \cup {"contents", "panics", "raw"}
    [] Prop = "C04" -> Sorted \cup {"panics", "raw"}
    [] Prop = "C06" -> {"race", "indices"}
    [] Prop = "C07" -> {"quota"}
    [] Prop = "C08" -> {"solo"}
    [] Prop = "C09" -> Finish \cup {"late"}
    [] Prop = "C10" -> {"race", "sharedrace", "outside", "contents", "neighbours"}
    [] Prop = "C11" -> Finish \cup Sorted \cup {"interference", "coupled", "settings", "late", "quota", "solo", "contents", "neighbours", "verdict", "modified"}
    [] Prop = "C12" -> Finish \cup Sorted \cup {"quota", "late", "contents", "settings"}
    [] Prop = "C13" -> Finish \cup {"verdict", "modified", "indices", "interference", "race", "outside"}
    [] Prop = "C16" -> {"depth", "panics"}
    [] Prop = "C18" -> {"alone", "portion"}
    [] Prop = "C20" -> {"work", "over"}
    [] Prop = "C21" -> {"stale", "ignored", "kept"}

Failed(t) == Clauses(t) \cap Relevant

Init == l = 0
Next == l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l

Allowed == l = 0 \/ LET f == Failed(Trace[l]) IN f = {} \/ (PrintT(<<"REJECTED", l, f>>) /\ FALSE)
=============================================================================
