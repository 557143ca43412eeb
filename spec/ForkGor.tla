------------------------------- MODULE ForkGor -------------------------------
(* ForkSort seen from outside: each of its steps is mapped to the events that *)
(* the goroutine machine of Goroutines.tla takes, and the machine finds       *)
(* nothing to blame. So the protocol satisfies exactly those clauses that     *)
(* behaviours of the real code are judged by (TraceGor.tla).                  *)
(*                                                                            *)
(* Synchronisation objects: 1 is nGor, 2k and 2k+1 belong to the k-th message *)
(* of the channel.                                                            *)
EXTENDS ForkSort, SequencesExt

VARIABLES st,   \* state of the goroutine machine
          msgs  \* messages so far

M == INSTANCE Goroutines

MaxG == 2 * N
Call == [n |-> N, rec |-> Rec, lo |-> 1, hi |-> N]

Iv(r) == IF Size(r) <= 0 THEN <<>> ELSE <<r[1], r[2]>>
\* quarters at both ends of r
Quart(r) == LET m == Mid(r) IN Iv(<<r[1], m[1] - 1>>) \o Iv(<<m[2] + 1, r[2]>>)

Access(g, r, w) == IF r = <<>> /\ w = <<>> THEN <<>> ELSE << <<"work", g>>, <<"seg", g, r, w, <<>>>> >>
Atomic(g) == << <<"seg", g, <<>>, <<>>, <<N + 1, N + 1>>>>, <<"acq", g, 1>>, <<"rel", g, 1>> >>
New == Len(gs) + 1

\* events of the step that g is about to take
Events(g) ==
  LET x == gs[g] IN
  CASE x.pc = "start" -> << <<"begin", g, 1>> >> \o (IF chans' > chans THEN << <<"chan", g>> >> ELSE <<>>)
    [] x.pc = "part" -> Access(g, Iv(x.ar), <<>>) \o << <<"spawn", g, New>> >>
    [] x.pc = "quarters" -> Access(g, Quart(x.ar), Quart(x.ar)) \o << <<"idle", g>> >>
    [] x.pc = "mid" -> Access(g, Iv(x.ar), Iv(x.ar)) \o << <<"idle", g>> >>
    [] x.pc = "gap" -> Access(g, Iv(x.ar), Iv(x.ar)) \o
         (IF Len(gs') > Len(gs) THEN << <<"spawn", g, New>> >> ELSE Atomic(g))
    [] x.pc = "load" -> Atomic(g)
    [] x.pc \in {"cas", "add"} -> Atomic(g)
    [] x.pc \in {"long", "leaf"} -> Access(g, Iv(x.ar), Iv(x.ar))
    [] x.pc = "golong" -> << <<"spawn", g, New>> >>
    [] x.pc = "done" -> (IF x.k = 1 THEN <<>> ELSE Atomic(g)) \o << <<"idle", g>> >>
         \o (IF gs'[g].pc = "ret" THEN << <<"ret", g, 1, 0>>, <<"exit", g, 0>>, <<"end">> >>
             ELSE IF gs'[g].pc = "end" THEN << <<"exit", g, 0>> >> ELSE <<>>)
    [] OTHER -> <<>>

\* both sides of a message
Exchange(g, h) ==
  LET a == 2 * (msgs + 1) IN
  << <<"rel", h, a>>, <<"rel", g, a + 1>>, <<"acq", g, a>>, <<"acq", h, a + 1>>, <<"exit", h, 0>> >>
  \o (IF gs[g].pc = "recvdone" THEN << <<"ret", g, 1, 0>>, <<"exit", g, 0>>, <<"end">> >> ELSE <<>>)

MInit == /\ Init
         /\ st = M!Step(M!Fresh(MaxG, 4 * N, <<Call>>, N, mg), <<"root", 1, 1>>)
         /\ msgs = 0

MNext ==
  \/ SetMaxGor /\ st' = M!Step(st, <<"setmg", mg'>>) /\ UNCHANGED msgs
  \/ \E g \in DOMAIN gs :
       IF gs[g].pc \in {"recvpart", "recvdone"}
       THEN \E h \in DOMAIN gs : /\ Rendezvous(g, h) /\ msgs' = msgs + 1
                                 /\ st' = FoldLeft(M!Step, st, Exchange(g, h))
       ELSE Do(g) /\ st' = FoldLeft(M!Step, st, Events(g)) /\ UNCHANGED msgs

MSpec == MInit /\ [][MNext]_<<vars, st, msgs>>

Blameless == st.bad = {}
\* C18
Shared == ~Running => M!Sharing(st) = {}
Complete2 == ~Running => st.ret = {1} /\ st.live = {}
=============================================================================
