------------------------------- MODULE GenCases -------------------------------
(* Inputs for the real code, taken from the bounds within which the models    *)
(* are checked: all small inputs of the contract (SortyAPI), arrangements of  *)
(* elements below, at and above a pivot over the eight zones that matter to   *)
(* concurrent partitioning (Partition, LswPartition), all arrangements of     *)
(* NaNs (NaNs), all small searches (Search). What must come of each of them   *)
(* is for TraceCalls to say. KIND says which inputs, OUT where they go.       *)
EXTENDS SortyBase, SequencesExt, TLC, Json, IOUtils

CONSTANTS Small,   \* length of exhaustive inputs
          Every    \* one of Every zone patterns

Kind == IOEnv.KIND
Seed == atoi(IOEnv.SEED)

Case(ty, key, nan, mg, op, lens) ==
  [ty |-> ty, key |-> key, nan |-> nan, mg |-> mg, op |-> op, n |-> Len(key), k |-> 0, lens |-> lens]
Tiny == <<10, 9, 22, 21>>   \* MaxLenIns, MaxLenInsFC, MaxLenRec, MaxLenRecFC

\* all weak orders of n elements: ranks are 0..m without gap
Weak(n) == {f \in [1 .. n -> 0 .. n - 1] :
              \A x \in {f[i] : i \in 1 .. n} : x = 0 \/ \E j \in 1 .. n : f[j] = x - 1}
Flat(ss) == FlattenSeq(ss)
List(S) == SetToSeq(S)

WeakCases == Flat([n \in 1 .. Small |-> LET W == List(Weak(n)) IN [i \in DOMAIN W |-> Case("*", W[i], NaNlarge, 3, "sort", Tiny)]])

\* digit i of x with base 3
Digit(x, i) == (x \div 3 ^ i) % 3
Zones == 8
\* element i of n lies in zone floor(i * Zones / n)
Zoned(x, n) == [i \in 1 .. n |-> Digit(x, ((i - 1) * Zones) \div n)]
Patterns == {x \in 0 .. 3 ^ Zones - 1 : x % Every = Seed % Every}
ZoneCases == LET P == List(Patterns) IN
  [i \in DOMAIN P |-> Case("?", Zoned(P[i], 44 + (P[i] % 9)), NaNlarge, 2 + (P[i] % 3), "sort", Tiny)]

NaNSeqs(n, m) == [1 .. n -> NaN .. m]
NaNCases(op, m) ==
  Flat([n \in 1 .. Small |->
    LET S == List({s \in NaNSeqs(n, m) : TRUE})
        L == [i \in DOMAIN S |-> Case("?", S[i], NaNlarge, 3, op, Tiny)]
        T == [i \in DOMAIN S |-> Case("?", S[i], NaNsmall, 3, op, Tiny)]
    IN L \o T])

IssCases == Flat([n \in 1 .. Small |-> LET W == List(Weak(n)) IN [i \in DOMAIN W |-> Case("?", W[i], NaNlarge, 3, "iss", Tiny)]])

SearchCases ==
  Flat([n \in 1 .. 25 |-> [j \in 1 .. n |-> [ty |-> "", key |-> <<>>, nan |-> 1, mg |-> 3, op |-> "search", n |-> n - 1, k |-> j - 1, lens |-> <<>>]]])

\* tuning values at the limits of what is allowed
ParamCases ==
  LET Vals == {v \in {0, 1, 3, 4096, 4097} \X (7 .. 11) \X {8, 9, 10} \X (12 .. 24) \X (13 .. 23) :
                 LET i == v[2] f == v[3] r == v[4] rf == v[5] IN
                 i - f \in {-1, 0, 1} /\ rf - 2 * i \in {-1, 0, 1} /\ r - rf \in {-1, 0, 1}}
      L == List({v \in Vals : v[1] = 3 \/ GoodParams(3, v[2], v[3], v[4], v[5])}) IN
  [j \in DOMAIN L |-> [ty |-> "", key |-> <<>>, nan |-> 1, mg |-> L[j][1], op |-> "start", n |-> 0, k |-> 0,
                       lens |-> <<L[j][2], L[j][3], L[j][4], L[j][5]>>]]

Floats(C) == [i \in DOMAIN C |-> [C[i] EXCEPT !.ty = "?f"]]
Cases == CASE Kind = "Orders" -> WeakCases \o ZoneCases
           [] Kind = "NaNs" -> Floats(NaNCases("sort", 1))
           [] Kind = "Scan" -> IssCases \o Floats(NaNCases("iss", 1))
           [] Kind = "Search" -> SearchCases
           [] Kind = "Params" -> ParamCases

VARIABLE done
Init == done = 0
Next == done = 0 /\ ndJsonSerialize(IOEnv.OUT, Cases) /\ done' = 1
Spec == Init /\ [][Next]_done
=============================================================================
