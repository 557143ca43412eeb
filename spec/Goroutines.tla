------------------------------ MODULE Goroutines ------------------------------
(* The goroutines of sorting calls as an abstract machine. Its transitions    *)
(* are the events that can be seen from outside of the algorithms:            *)
(*   <<"root", g, c>>      goroutine g will execute call c                    *)
(*   <<"begin", g, c>>     g calls the library                                *)
(*   <<"spawn", p, g>>     p starts g, on behalf of the call of p             *)
(*   <<"chan", g>>         g makes a channel                                  *)
(*   <<"work", g>>         g starts to work on the data                       *)
(*   <<"idle", g>>         g stops: it waits or has nothing more to do        *)
(*   <<"seg", g, R, W, A>> since its last synchronisation g has read, written *)
(*                         and atomically accessed these locations            *)
(*   <<"rel", g, o>>       g publishes on synchronisation object o            *)
(*   <<"acq", g, o>>       g takes over what was published on o               *)
(*   <<"use", g, o, k>>    g uses synchronisation object o, and changes it (k=1) *)
(*   <<"setting", g>>      g writes a variable of the package meant for users  *)
(*   <<"setmg", v, k>>     the user changes MaxGor, after k accesses          *)
(*   <<"ret", g, c, d>>    call c returns after nesting up to d calls on g    *)
(*   <<"exit", g, d>>      g ends                                             *)
(*   <<"panic", g>>, <<"stuck", g...>>, <<"over", g>>: g panics, the g wait   *)
(*                         for ever, the step budget is used up               *)
(*   <<"raw", g>>          g writes pointers to the data as mere numbers: the  *)
(*                         garbage collector is not told (Gc shows what then)  *)
(*   <<"end">>             there is nothing more to run                       *)
(* What must not happen is collected in bad, a set of clause names: ForkSort  *)
(* shows that the protocol of sorty keeps it empty, TraceGor evaluates it for *)
(* behaviours of the real code.                                               *)
EXTENDS SortyBase

Max(a, b) == IF a < b THEN b ELSE a

(* Locations are sequences of intervals lo1, hi1, lo2, hi2, ... in ascending order *)
Overlap(a, b) ==
  /\ a # <<>> /\ b # <<>>
  /\ a[1] <= b[Len(b)] /\ b[1] <= a[Len(a)]
  /\ \E i \in 1 .. Len(a) \div 2 : \E j \in 1 .. Len(b) \div 2 :
       a[2 * i - 1] <= b[2 * j] /\ b[2 * j - 1] <= a[2 * i]

Outside(a, lo, hi, nl) == \E i \in 1 .. Len(a) \div 2 :
   a[2 * i - 1] <= nl /\ (a[2 * i - 1] < lo \/ a[2 * i] > hi)
Cut(a, lo, hi) == \* restriction to [lo, hi]
  LET n == Len(a) \div 2
      in == {i \in 1 .. n : a[2 * i] >= lo /\ a[2 * i - 1] <= hi}
  IN  IF in = {} THEN <<>>
      ELSE LET s == CHOOSE i \in in : \A j \in in : i <= j
               t == CHOOSE i \in in : \A j \in in : j <= i
               b == SubSeq(a, 2 * s - 1, 2 * t)
           IN  [i \in 1 .. Len(b) |-> IF b[i] < lo THEN lo ELSE IF b[i] > hi THEN hi ELSE b[i]]

(* The state: calls is a sequence of [n: number of elements, rec: MaxLenRec,  *)
(* lo, hi: locations of its elements], nl: locations 1..nl are elements of    *)
(* some call (or their neighbours), greater ones are other memory.            *)
Fresh(ng, no, calls, nl, mg) ==
  [calls |-> calls, nl |-> nl,
   cl   |-> [g \in 1 .. ng |-> 0],                    \* call of a goroutine
   vc   |-> [g \in 1 .. ng |-> [h \in 1 .. ng |-> 0]], \* what g knows of h
   ob   |-> [o \in 1 .. no |-> [h \in 1 .. ng |-> 0]], \* what was published
   by   |-> [o \in 1 .. no |-> 0],                    \* call that changed it last
   work |-> {},                                       \* working goroutines
   live |-> {},                                       \* started, not ended
   mg   |-> mg,
   mgm  |-> [c \in DOMAIN calls |-> 0],               \* largest MaxGor during a call
   mgl  |-> [c \in DOMAIN calls |-> 0],               \* lowest
   root |-> [c \in DOMAIN calls |-> 0],               \* its first goroutine
   ch   |-> [c \in DOMAIN calls |-> 0],               \* channels made
   dep  |-> [c \in DOMAIN calls |-> 0],               \* nesting
   begun |-> {}, ret |-> {},
   segs |-> <<>>,
   bad  |-> {}]

Join(a, b) == [h \in DOMAIN a |-> Max(a[h], b[h])]

Blame(st, cond, name) == IF cond THEN [st EXCEPT !.bad = @ \cup {name}] ELSE st

\* must call c remain on one goroutine?
Solo(st, c) == st.mgm[c] <= 1 \/ st.calls[c].n < 2 * (st.calls[c].rec + 1)

\* does segment s of the past happen before the current operation of g?
Before(st, s, g) == s.g = g \/ s.clk <= st.vc[g][s.g]

\* s and t access the same element / other location, and not both only read it (atomic
\* accesses only conflict with others)
Elem(s, t) == Overlap(s.w, t.r) \/ Overlap(s.w, t.w) \/ Overlap(s.r, t.w)
Other(s, t) == \/ Overlap(s.xw, t.xr) \/ Overlap(s.xw, t.xw) \/ Overlap(s.xw, t.xa)
               \/ Overlap(s.xr, t.xw) \/ Overlap(s.xa, t.xw)

Root(st, g, c) == [st EXCEPT !.cl[g] = c, !.root[c] = g, !.vc[g][g] = 1, !.live = @ \cup {g}]

Begin(st, g, c) == [st EXCEPT !.mgm[c] = st.mg, !.mgl[c] = st.mg, !.begun = @ \cup {c}]

Spawn(st, p, g) ==
  LET c == st.cl[p] IN
  Blame(Blame([st EXCEPT !.cl[g] = c, !.live = @ \cup {g},
                         !.vc = [@ EXCEPT ![g] = [st.vc[p] EXCEPT ![g] = 1], ![p][p] = @ + 1]],
              Solo(st, c), "solo"),
        c \in st.ret, "late")

Chan(st, g) ==
  LET c == st.cl[g] IN
  Blame([st EXCEPT !.ch[c] = @ + 1], Solo(st, c) \/ st.ch[c] > 0, "solo")

Work(st, g) ==
  LET c == st.cl[g]
      w == {h \in st.work : st.cl[h] = c} \cup {g} IN
  Blame([st EXCEPT !.work = @ \cup {g}], Cardinality(w) > Max(1, st.mgm[c]), "quota")

Idle(st, g) == [st EXCEPT !.work = @ \ {g}]

Seg(st, g, r, w, a) ==
  LET c == st.cl[g]
      inf == 1000000000
      t == [g |-> g, clk |-> st.vc[g][g], call |-> c,
            r |-> Cut(r, 1, st.nl), w |-> Cut(w, 1, st.nl), \* elements
            xr |-> Cut(r, st.nl + 1, inf), xw |-> Cut(w, st.nl + 1, inf), xa |-> a]
      open == {i \in DOMAIN st.segs : ~Before(st, st.segs[i], g)}
      el == {i \in open : Elem(st.segs[i], t)}
      xt == {i \in open : Other(st.segs[i], t)}
      k == st.calls[c]
      b == (IF \E i \in el : st.segs[i].call = c THEN {"race"} ELSE {})
           \cup (IF \E i \in xt : st.segs[i].call = c THEN {"sharedrace"} ELSE {})
           \cup (IF \E i \in el \cup xt : st.segs[i].call # c THEN {"interference"} ELSE {})
           \cup (IF Outside(w, k.lo, k.hi, st.nl) THEN {"outside"} ELSE {})
           \cup (IF c \in st.ret /\ (t.r # <<>> \/ t.w # <<>>) THEN {"late"} ELSE {})
  IN [st EXCEPT !.segs = Append(@, t), !.bad = @ \cup b]

Rel(st, g, o) == [st EXCEPT !.ob[o] = Join(@, st.vc[g]), !.vc[g][g] = @ + 1]

Acq(st, g, o) == [st EXCEPT !.vc[g] = Join(@, st.ob[o])]

\* no state written by a call is visible to another, not even with synchronisation
Use(st, g, o, k) ==
  LET c == st.cl[g] IN
  Blame(IF k = 1 THEN [st EXCEPT !.by[o] = c] ELSE st, st.by[o] \notin {0, c}, "coupled")

SetMG(st, v) == [st EXCEPT !.mg = v,
   !.mgm = [c \in DOMAIN @ |-> IF c \in st.begun \ st.ret THEN Max(@[c], v) ELSE @[c]],
   !.mgl = [c \in DOMAIN @ |-> IF c \in st.begun \ st.ret /\ v < @[c] THEN v ELSE @[c]]]

\* when c returns all accesses to its elements have happened
Ret(st, g, c, d) ==
  Blame([st EXCEPT !.ret = @ \cup {c}, !.dep[c] = Max(@, d)],
        \E i \in DOMAIN st.segs : LET s == st.segs[i] IN
            s.call = c /\ ~Before(st, s, g) /\ (s.r # <<>> \/ s.w # <<>>), "late")

Exit(st, g, d) == [st EXCEPT !.live = @ \ {g}, !.work = @ \ {g}, !.dep[st.cl[g]] = Max(@, d)]

End(st) ==
  Blame(Blame(st, DOMAIN st.calls # st.ret \/ st.live # {}, "unfinished"),
        \E c \in DOMAIN st.calls : st.dep[c] > DepthBound(st.calls[c].n), "depth")

\* How work was shared, at the end: number of elements of its call that g touched
Touched(st, g) ==
  Cardinality(UNION {UNION {t[2 * i - 1] .. t[2 * i] : i \in 1 .. Len(t) \div 2} :
                     t \in UNION {{st.segs[j].r, st.segs[j].w} : j \in {k \in DOMAIN st.segs : st.segs[k].g = g}}})
\* A long call has help, if MaxGor allowed it all the time, and help is worth it: a goroutine gets more
\* than MaxLenRec elements. One that partitions may stop when half of them are classified.
Sharing(st) ==
  LET help(c) == {g \in DOMAIN st.cl : st.cl[g] = c /\ g # st.root[c] /\ Touched(st, g) > 0}
      long(c) == st.calls[c].n >= 2 * (st.calls[c].rec + 1)
  IN (IF \E c \in DOMAIN st.calls : long(c) /\ st.mgl[c] >= 2 /\ help(c) = {} THEN {"alone"} ELSE {})
     \cup (IF \E c \in DOMAIN st.calls : \E g \in help(c) : 2 * Touched(st, g) <= st.calls[c].rec THEN {"portion"} ELSE {})

Step(st, e) ==
  CASE e[1] = "root"  -> Root(st, e[2], e[3])
    [] e[1] = "begin" -> Begin(st, e[2], e[3])
    [] e[1] = "spawn" -> Spawn(st, e[2], e[3])
    [] e[1] = "chan"  -> Chan(st, e[2])
    [] e[1] = "work"  -> Work(st, e[2])
    [] e[1] = "idle"  -> Idle(st, e[2])
    [] e[1] = "seg"   -> Seg(st, e[2], e[3], e[4], e[5])
    [] e[1] = "rel"   -> Rel(st, e[2], e[3])
    [] e[1] = "acq"   -> Acq(st, e[2], e[3])
    [] e[1] = "use"   -> Use(st, e[2], e[3], e[4])
    [] e[1] = "setmg" -> SetMG(st, e[2])
    [] e[1] = "ret"   -> Ret(st, e[2], e[3], e[4])
    [] e[1] = "exit"  -> Exit(st, e[2], e[3])
    [] e[1] = "end"   -> End(st)
    [] e[1] = "panic" -> Blame(st, TRUE, "panics")
    [] e[1] = "raw"   -> Blame(st, TRUE, "raw")
    [] e[1] = "setting" -> Blame(st, TRUE, "settings")
    [] e[1] = "stuck" -> Blame(st, TRUE, "stuck")
    [] e[1] = "over"  -> Blame(st, TRUE, "over")
=============================================================================
