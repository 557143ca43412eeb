--------------------------------- MODULE Judge ---------------------------------
(* Is the goroutine machine a fair judge? Every short history of events is    *)
(* run through it, and its verdicts (by vector clocks, incrementally) are     *)
(* compared with the plain definitions on the whole history: accesses race if *)
(* they conflict and neither happens before the other, happens-before being   *)
(* the transitive closure of program order, spawn order, and of a release     *)
(* followed by an acquire of the same object.                                 *)
EXTENDS Goroutines, TLC

CONSTANTS Gs,    \* goroutines are 1..Gs, 1 is the root of call 1
          Objs, Depth, MGs

VARIABLES h, st

SegEv(g, r, w) == <<"seg", g, r, w, <<>>>>
Loc(x) == <<x, x>>
Started == {1} \cup {h[i][3] : i \in {j \in DOMAIN h : h[j][1] = "spawn"}}
Ended == {h[i][2] : i \in {j \in DOMAIN h : h[j][1] = "exit"}}
Returned == \E i \in DOMAIN h : h[i][1] = "ret"
Live == Started \ Ended

Events ==
  UNION {
    {SegEv(g, Loc(1), <<>>), SegEv(g, <<>>, Loc(1)), SegEv(g, <<>>, Loc(3))}
    \cup {<<"rel", g, o>> : o \in 1 .. Objs} \cup {<<"acq", g, o>> : o \in 1 .. Objs}
    \cup {<<"spawn", g, p>> : p \in {Cardinality(Started) + 1} \cap 1 .. Gs}
    \cup (IF g \in st.work THEN {<<"idle", g>>} ELSE {<<"work", g>>})
    \cup (IF g = 1 /\ ~Returned THEN {<<"ret", 1, 1, 0>>} ELSE {})
  : g \in Live}
  \cup {<<"setmg", v>> : v \in MGs \ {st.mg}}

Init == /\ h = << >>
        /\ st = Step(Step(Fresh(Gs, Objs, <<[n |-> 9, rec |-> 1, lo |-> 1, hi |-> 1]>>, 2, 2), <<"root", 1, 1>>), <<"begin", 1, 1>>)
Next == Len(h) < Depth /\ \E e \in Events : h' = Append(h, e) /\ st' = Step(st, e)
Spec == Init /\ [][Next]_<<h, st>>

----------------------------------------------------------------------------
(* definitions on the whole history *)
Direct(i, j) ==
  /\ i < j
  /\ \/ h[i][2] = h[j][2] /\ h[i][1] # "setmg" /\ h[j][1] # "setmg"
     \/ h[i][1] = "spawn" /\ h[j][2] = h[i][3]
     \/ h[i][1] = "rel" /\ h[j][1] = "acq" /\ h[i][3] = h[j][3]
NotSet(i) == h[i][1] # "setmg"
RECURSIVE HB(_, _)
HB(i, j) == \/ Direct(i, j)
            \/ \E k \in i + 1 .. j - 1 : NotSet(k) /\ Direct(i, k) /\ HB(k, j)

Segs == {i \in DOMAIN h : h[i][1] = "seg"}
Touch(i, x) == h[i][3] = Loc(x) \/ h[i][4] = Loc(x)
Write(i, x) == h[i][4] = Loc(x)
Races(x) == \E i, j \in Segs : i < j /\ Touch(i, x) /\ Touch(j, x) /\ (Write(i, x) \/ Write(j, x))
                               /\ h[i][2] # h[j][2] /\ ~HB(i, j)
RaceRight == ("race" \in st.bad) = Races(1)
SharedRight == ("sharedrace" \in st.bad) = Races(3)

\* accesses to elements after the return, or not known to precede it; goroutines started after it
LateRight ==
  ("late" \in st.bad) =
    (\E i \in DOMAIN h : h[i][1] = "ret" /\
        \E j \in DOMAIN h : \/ j \in Segs /\ Touch(j, 1) /\ (j > i \/ (h[j][2] # 1 /\ ~HB(j, i)))
                            \/ h[j][1] = "spawn" /\ j > i)

RECURSIVE WorkingAt(_), MGAt(_)
WorkingAt(i) == IF i = 0 THEN {}
                ELSE IF h[i][1] = "work" THEN WorkingAt(i - 1) \cup {h[i][2]}
                ELSE IF h[i][1] = "idle" THEN WorkingAt(i - 1) \ {h[i][2]} ELSE WorkingAt(i - 1)
MGAt(i) == IF i = 0 THEN 2
           ELSE IF h[i][1] = "setmg" /\ ~(\E j \in 1 .. i : h[j][1] = "ret") /\ h[i][2] > MGAt(i - 1) THEN h[i][2]
           ELSE MGAt(i - 1)
QuotaRight == ("quota" \in st.bad) = (\E i \in DOMAIN h : h[i][1] = "work" /\ Cardinality(WorkingAt(i)) > MGAt(i))
=============================================================================
