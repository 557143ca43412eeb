------------------------------- MODULE ForkAll -------------------------------
(* The counter and the end signal of the fork/join protocol of sorty, for any *)
(* number of goroutines and any value and changes of MaxGor, with Apalache:   *)
(* Inv is inductive. Goroutines in the same situation are only counted; what  *)
(* they sort is left out (ForkSort and ForkData have it, for small cases).    *)
EXTENDS Integers

CONSTANT
  \* @type: Str;
  Bug

VARIABLES
  \* @type: Int;
  mg,    \* MaxGor
  \* @type: Int;
  mgmax, \* largest MaxGor since the call began
  \* @type: Int;
  nGor,  \* counter of the call
  \* @type: Str;
  main,  \* the caller
  \* @type: Int;
  part,  \* partitioning goroutines
  \* @type: Int;
  subs,  \* sorting goroutines
  \* @type: Int;
  resM,  \* the caller has reserved a place, but not yet started a goroutine
  \* @type: Int;
  resS,  \* as many sorting goroutines have
  \* @type: Int;
  sigs   \* goroutines that send the end signal

CInit == Bug = "none"
CInitBug == Bug = "add"

Init ==
  /\ mg \in Nat /\ mgmax = mg
  /\ nGor = 0 /\ main = "start" /\ part = 0 /\ subs = 0 /\ resM = 0 /\ resS = 0 /\ sigs = 0

SetMaxGor == /\ mg' \in Nat /\ mgmax' = IF mg' > mgmax THEN mg' ELSE mgmax
             /\ UNCHANGED <<nGor, main, part, subs, resM, resS, sigs>>

Start == /\ main = "start"
         /\ IF mg <= 1 THEN main' = "alone" /\ UNCHANGED <<nGor, part>>
            ELSE main' = "part" /\ nGor' = 2 /\ part' = 1
         /\ UNCHANGED <<mg, mgmax, subs, resM, resS, sigs>>
Alone == main = "alone" /\ main' = "ret" /\ UNCHANGED <<mg, mgmax, nGor, part, subs, resM, resS, sigs>>

\* the partitioning goroutine has ended: its place is handed over, or given back
HandOver == /\ main = "part" /\ main' = "more" /\ part' = 0 /\ subs' = subs + 1
            /\ UNCHANGED <<mg, mgmax, nGor, resM, resS, sigs>>
GiveBack == /\ main = "part" /\ main' = "more" /\ part' = 0 /\ nGor' = nGor - 1
            /\ UNCHANGED <<mg, mgmax, subs, resM, resS, sigs>>

\* The counter was loaded at some time, the value v then was below MaxGor, as it was some time later: v < mgmax
Cas == \E v \in Nat : v < mgmax /\ (nGor = v \/ Bug = "add") /\ nGor' = nGor + 1
AgainM == /\ main = "more" /\ Cas /\ main' = "part" /\ part' = 1
          /\ UNCHANGED <<mg, mgmax, subs, resM, resS, sigs>>
EnoughM == main = "more" /\ main' = "long" /\ UNCHANGED <<mg, mgmax, nGor, part, subs, resM, resS, sigs>>
ReserveM == /\ main = "long" /\ resM = 0 /\ Cas /\ resM' = 1
            /\ UNCHANGED <<mg, mgmax, main, part, subs, resS, sigs>>
GoM == /\ resM = 1 /\ resM' = 0 /\ subs' = subs + 1
       /\ UNCHANGED <<mg, mgmax, nGor, main, part, resS, sigs>>
ReserveS == /\ resS < subs /\ Cas /\ resS' = resS + 1
            /\ UNCHANGED <<mg, mgmax, main, part, subs, resM, sigs>>
GoS == /\ resS > 0 /\ resS' = resS - 1 /\ subs' = subs + 1
       /\ UNCHANGED <<mg, mgmax, nGor, main, part, resM, sigs>>

DoneM == /\ main = "long" /\ resM = 0 /\ nGor' = nGor - 1
         /\ main' = IF nGor' # 0 THEN "recv" ELSE "ret"
         /\ UNCHANGED <<mg, mgmax, part, subs, resM, resS, sigs>>
DoneS == /\ resS < subs /\ subs' = subs - 1 /\ nGor' = nGor - 1
         /\ sigs' = IF nGor' = 0 THEN sigs + 1 ELSE sigs
         /\ UNCHANGED <<mg, mgmax, main, part, resM, resS>>
Signal == /\ main = "recv" /\ sigs > 0 /\ sigs' = sigs - 1 /\ main' = "ret"
          /\ UNCHANGED <<mg, mgmax, nGor, part, subs, resM, resS>>

Next == \/ SetMaxGor \/ Start \/ Alone \/ HandOver \/ GiveBack \/ AgainM \/ EnoughM \/ ReserveM \/ GoM
        \/ ReserveS \/ GoS \/ DoneM \/ DoneS \/ Signal

Works == {"part", "more", "long"}
Inv ==
  /\ main \in {"start", "alone", "part", "more", "long", "recv", "ret"}
  /\ mg >= 0 /\ mgmax >= mg /\ subs >= 0 /\ resS >= 0 /\ resS <= subs
  /\ part = (IF main = "part" THEN 1 ELSE 0)
  /\ resM \in {0, 1} /\ (resM = 1 => main = "long")
  /\ nGor = subs + resS + resM + part + (IF main \in Works THEN 1 ELSE 0)
  /\ sigs = (IF main = "recv" /\ nGor = 0 THEN 1 ELSE 0)
  /\ main \in {"start", "alone", "ret"} => nGor = 0
  /\ nGor > 0 => nGor <= mgmax

\* any state with Inv
AnyInv ==
  /\ mg \in Int /\ mgmax \in Int /\ nGor \in Int /\ part \in Int /\ subs \in Int /\ resM \in Int
  /\ resS \in Int /\ sigs \in Int
  /\ main \in {"start", "alone", "part", "more", "long", "recv", "ret"}
  /\ Inv

\* C07, C12: the quota, whatever MaxGor was during the call
Quota == subs + part + (IF main \in Works THEN 1 ELSE 0) <= (IF mgmax < 1 THEN 1 ELSE mgmax)
\* C09: the last to finish, and only it, signals; nobody is left behind
AllDone == main = "ret" => subs = 0 /\ part = 0 /\ sigs = 0
OneSignal == sigs <= 1
NotStuck == main = "recv" => subs > 0 \/ sigs = 1
Good == Inv /\ Quota /\ AllDone /\ OneSignal /\ NotStuck
==============================================================================
