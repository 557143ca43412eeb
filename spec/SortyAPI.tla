------------------------------- MODULE SortyAPI -------------------------------
(* sorty as its users see it: a collection, the two configuration variables, *)
(* and calls. A call is one step here; Goroutines.tla and ForkSort.tla look  *)
(* inside of it. Elements of coll are records [key: rank, id: identity].     *)
EXTENDS SortyBase

CONSTANTS MaxLen, MaxKey   \* bounds of the model

VARIABLES coll,  \* the collection, a sequence of elements
          nan,   \* NaNoption
          mg,    \* MaxGor
          out    \* the last call and its result, [f, ...]

vars == <<coll, nan, mg, out>>

KeysOf(c) == [i \in 1 .. Len(c) |-> c[i].key]
HasNaN(c) == \E i \in 1 .. Len(c) : c[i].key = NaN
NoCall == [f |-> "none", ret |-> 0]

\* all permutations of 1..n
PermTable == [n \in 0 .. MaxLen |-> {q \in [1 .. n -> 1 .. n] : IsPermutation(q, n)}]

\* Which results may SortSlice, SortLen, Sort have? new is the collection afterwards.
SortAllowed(old, new, o) ==
  \E p \in PermTable[Len(old)] :
    /\ new = Arrange(old, p)
    /\ (o # NaNignore \/ ~HasNaN(old)) => Ascending(KeysOf(new), o)

\* the same when the permutation is known (recorded)
SortAllowedBy(key, p, o) ==
  /\ IsPermutation(p, Len(key))
  /\ Ascending(Arrange(key, p), o)

Load(c) == /\ coll' = c /\ out' = NoCall /\ UNCHANGED <<nan, mg>>
SetMaxGor(v) == mg' = v /\ UNCHANGED <<coll, nan, out>>
SetNaNoption(v) == nan' = v /\ out' = NoCall /\ UNCHANGED <<coll, mg>>

Sort(new) ==
  /\ SortAllowed(coll, new, nan)
  /\ coll' = new
  /\ out' = [f |-> "Sort", ret |-> 0]
  /\ UNCHANGED <<nan, mg>>

IsSorted(ret) ==
  /\ nan # NaNignore \/ ~HasNaN(coll)
  /\ GoodVerdict(KeysOf(coll), ret, nan)
  /\ out' = [f |-> "IsSorted", ret |-> ret]
  /\ UNCHANGED <<coll, nan, mg>>

\* Search for the first element not below rank x
Search(x, ret) ==
  /\ Ascending(KeysOf(coll), nan) /\ ~HasNaN(coll)
  /\ ret \in 0 .. Len(coll)
  /\ \A i \in 1 .. Len(coll) : (i <= ret) = (coll[i].key < x)
  /\ out' = [f |-> "Search", ret |-> ret]
  /\ UNCHANGED <<coll, nan, mg>>

-----------------------------------------------------------------------------
Ranks == NaN .. MaxKey
Colls == UNION {{[i \in 1 .. n |-> [key |-> s[i], id |-> i]] : s \in [1 .. n -> Ranks]} : n \in 0 .. MaxLen}
Perms(c) == {Arrange(c, p) : p \in PermTable[Len(c)]}

Init == coll \in Colls /\ nan \in {NaNsmall, NaNignore, NaNlarge} /\ mg = 3 /\ out = NoCall
Next == \/ \E new \in Perms(coll) : Sort(new)
        \/ \E r \in 0 .. Len(coll) : IsSorted(r)
        \/ \E x \in 0 .. MaxKey + 1, r \in 0 .. Len(coll) : Search(x, r)
        \/ \E v \in {0, 1, 3} : SetMaxGor(v)
Spec == Init /\ [][Next]_vars

\* What follows from the contract: it can be met, and it means what users expect.
CanSort == \E new \in Perms(coll) : SortAllowed(coll, new, nan)
CanJudge == (nan # NaNignore \/ ~HasNaN(coll)) =>
              \E r \in 0 .. Len(coll) : GoodVerdict(KeysOf(coll), r, nan)
\* keys of the result are determined by the input
Determined == (nan # NaNignore \/ ~HasNaN(coll)) =>
  \A a, b \in Perms(coll) : SortAllowed(coll, a, nan) /\ SortAllowed(coll, b, nan) => KeysOf(a) = KeysOf(b)
\* after Sort, IsSorted can only say 0; NaNs are where the option says
AfterSort == out.f = "Sort" /\ (nan # NaNignore \/ ~HasNaN(coll)) =>
  /\ \A r \in 0 .. Len(coll) : GoodVerdict(KeysOf(coll), r, nan) => r = 0
  /\ nan = NaNlarge => \A i \in 2 .. Len(coll) : coll[i - 1].key = NaN => coll[i].key = NaN
  /\ nan = NaNsmall => \A i \in 2 .. Len(coll) : coll[i].key = NaN => coll[i - 1].key = NaN
\* the two ways to state a sorting result agree
SameContract == (nan # NaNignore \/ ~HasNaN(coll)) =>
  \A p \in [1 .. Len(coll) -> 1 .. Len(coll)] :
    SortAllowedBy(KeysOf(coll), p, nan) = (IsPermutation(p, Len(coll)) /\ SortAllowed(coll, Arrange(coll, p), nan))
\* Less is a strict weak order
WeakOrder == \A a, b, c \in Ranks : nan # NaNignore =>
  /\ ~Less(a, a, nan)
  /\ ~(Less(a, b, nan) /\ Less(b, a, nan))
  /\ Less(a, b, nan) => Less(a, c, nan) \/ Less(c, b, nan)
Untouched == out.f \in {"IsSorted", "Search"} => \A i \in 1 .. Len(coll) : coll[i].id \in 1 .. Len(coll)
\* IsSorted, Search and setting MaxGor never change the collection; Sort only rearranges it
Frame == [][ /\ {coll'[i] : i \in 1 .. Len(coll')} = {coll[i] : i \in 1 .. Len(coll)}
             /\ out'.f \in {"IsSorted", "Search"} => coll' = coll ]_vars
=============================================================================
