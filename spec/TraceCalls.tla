------------------------------ MODULE TraceCalls ------------------------------
(* Judges recorded calls of the real library, one per line of a file, against *)
(* the contract of SortyBase / SortyAPI. The state is the line number.        *)
EXTENDS SortyBase, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLE l

SortAllowedBy(key, p, o) ==
  /\ IsPermutation(p, Len(key))
  /\ Ascending(Arrange(key, p), o)

\* Failed clauses of the contract of a call r, as a set of names
When(b, name) == IF b THEN {} ELSE {name}

SortClauses(r) ==
  When(r.pan = "", "panics")
  \cup (IF r.pan # "" THEN {} ELSE
         When(IsPermutation(r.perm, Len(r.key)), "permutation")
         \cup When(IsPermutation(r.perm, Len(r.key)) => Ascending(Arrange(r.key, r.perm), r.nan), "order"))
  \cup When(r.b, "contents")
  \cup When(r.g, "outside")
  \cup When(r.oob = 0, "indices")

\* a long call, of which only some positions are recorded: at[i] is a position, perm[i] the input position
\* of the element that is there now, key[i] its rank
PartClauses(r) ==
  LET m == Len(r.at)
      known == \A i \in 1 .. m : r.perm[i] \in 1 .. r.len IN
  When(r.pan = "", "panics")
  \cup (IF r.pan # "" THEN {} ELSE
         When(known /\ Cardinality({r.perm[i] : i \in 1 .. m}) = m, "permutation")
         \cup When(known => Ascending(r.key, r.nan), "order"))
  \cup When(r.b, "contents")
  \cup When(r.g, "outside")
  \cup When(r.oob = 0, "indices")

IssClauses(r) ==
  When(r.pan = "", "panics")
  \cup When(r.pan # "" \/ GoodVerdict(r.key, r.ret, r.nan), "verdict")
  \cup When(r.same /\ r.b /\ r.g, "modified")
  \cup When(r.oob = 0, "indices")
  \cup When(r.swaps = 0, "swaps")

\* a long one, of which only some positions are recorded
IssPartClauses(r) ==
  LET Descents == {i \in 2 .. Len(r.at) : r.at[i] = r.at[i - 1] + 1 /\ Descent(r.key, i, r.nan)} IN
  When(r.pan = "", "panics")
  \cup When(\/ r.pan # ""
            \/ r.ret = 0 /\ Descents = {}
            \/ r.ret > 0 /\ r.ret < r.len /\ \E i \in Descents : r.at[i] = r.ret + 1, "verdict")
  \cup When(r.same /\ r.b /\ r.g, "modified")
  \cup When(r.oob = 0, "indices")
  \cup When(r.swaps = 0, "swaps")

SearchClauses(r) ==
  When(r.pan = "", "panics")
  \cup When(r.pan # "" \/ (~r.neg /\ r.r = r.k), "result")
  \cup When(r.oob = 0, "indices")
  \cup When(r.calls <= MaxSearchCalls(r.n), "calls")

AcceptClauses(r) ==
  LET acc == Accepted(r.fn, r.type)
      sorts == r.fn \in {"SortSlice", "SortLen"} IN
  When(acc => r.pan = "", "rejected")
  \cup When(~acc => r.pan # "", "accepted")
  \cup When(r.pan # "" => r.same, "modified")
  \cup When(acc /\ r.pan = "" /\ ~r.empty =>
              IF sorts THEN SortAllowedBy(r.key, r.perm, r.nan)
              ELSE r.same /\ GoodVerdict(r.key, r.ret, r.nan), "meaning")

\* r: an attempt to start a program with some tuning values
StartClauses(r) ==
  LET good == GoodParams(r.mg, r.lens[1], r.lens[2], r.lens[3], r.lens[4]) IN
  When(good => ~r.refused, "refused") \cup When(~good => r.refused, "started")

HeapClauses(r) ==
  When(r.pan = "", "panics") \cup When(r.bytes <= HeapBound(r.len, r.mg), "heap")

Clauses(r) ==
  CASE r.op = "sort" -> SortClauses(r)
    [] r.op = "part" -> PartClauses(r)
    [] r.op = "iss" -> IssClauses(r)
    [] r.op = "isspart" -> IssPartClauses(r)
    [] r.op = "search" -> SearchClauses(r)
    [] r.op = "accept" -> AcceptClauses(r)
    [] r.op = "heap" -> HeapClauses(r)
    [] r.op = "start" -> StartClauses(r)
    [] r.op = "crash" -> {"crash"}
    [] r.op = "hang" -> {"hang"}

\* clauses that belong to a property
Relevant ==
  CASE Prop = "C06" -> {"indices", "swaps"}
    [] Prop = "C09" -> {"panics"}
    [] Prop = "C10" -> {"outside", "contents"}
    [] Prop \in {"C01", "C02", "C04", "C05"} -> {"panics", "permutation", "order"}
    [] Prop = "C03" -> {"panics", "permutation", "order", "contents"}
    [] Prop = "C17" -> {"panics", "permutation", "order", "contents"}
    [] Prop \in {"C11", "C12"} -> {"panics", "permutation", "order", "result", "contents"}
    [] Prop = "C13" -> {"panics", "verdict", "modified"}
    [] Prop = "C14" -> {"panics", "result", "indices", "calls"}
    [] Prop = "C15" -> {"rejected", "accepted", "modified", "meaning"}
    [] Prop = "C16" -> {"heap", "panics"}
    [] Prop = "C19" -> {"refused", "started", "panics", "permutation", "order", "contents"}
    [] OTHER -> {}

Failed(r) == Clauses(r) \cap (Relevant \cup {"crash", "hang"})

Init == l = 0
Next == l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l

Allowed == l = 0 \/ LET f == Failed(Trace[l]) IN f = {} \/ (PrintT(<<"REJECTED", l, f>>) /\ FALSE)
=============================================================================
