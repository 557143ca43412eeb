------------------------------ MODULE GenScripts ------------------------------
(* Behaviours of ForkSort as schedules for the real code: the goroutines in   *)
(* the order of their synchronising operations (go statement, atomic          *)
(* operation, send, receive; a go statement counts twice). TLC simulates and  *)
(* prints one schedule per behaviour that ends.                               *)
EXTENDS ForkSort, Json

VARIABLE h

GInit == Init /\ h = <<>>
Once(g) == WaitPart(g) \/ SendPart(g) \/ GapDec(g) \/ Load(g) \/ Cas(g)
Twice(g) == GoPart(g) \/ GapGo(g) \/ GoLong(g)
Last(g) == MainDec(g) \/ GDec(g)
Silent(g) == Start(g) \/ More(g) \/ Quota(g) \/ LongLeaf(g) \/ LongBoth(g) \/ GLong(g) \/ Leaf(g)
             \/ \E k \in DOMAIN gs : Rendezvous(g, k)
GNext == \E g \in DOMAIN gs :
  \/ Once(g) /\ h' = Append(h, g)
  \/ Twice(g) /\ h' = h \o <<g, g>>
  \/ Last(g) /\ h' = IF gs[g].k = 1 THEN h
                     ELSE IF gs'[g].pc \in {"recvdone", "senddone"} THEN h \o <<g, g>> ELSE Append(h, g)
  \/ Silent(g) /\ h' = h
GSpec == GInit /\ [][GNext]_<<vars, h>>
Emit == (~Running /\ h # <<>>) => PrintT("CASE " \o ToJson([script |-> h, mg |-> mg, parts |-> N \div (Rec + 1)]))
=============================================================================
