------------------------------- MODULE ApiGen -------------------------------
(***************************************************************************)
(* Behaviours of Api.tla, to be replayed into the implementation:           *)
(* tlc -simulate walks this specification and prints each walk's calls.      *)
(***************************************************************************)
EXTENDS Api, Json, IOUtils, Integers

Depth == atoi(IOEnv.DEPTH)
NMax == atoi(IOEnv.NMAX)
Letters == 3

VARIABLES m, h
vars == <<m, h>>

R(S) == RandomElement(S)
St == 1..m.n
Do(o) == m' = Apply(o, m, Letters) /\ h' = Append(h, o)
Ids == {0, 1, 2, 3, 7, 8, 64, 1000}

Init == m = Empty0 /\ h = <<>>

AddState == m.n < NMax /\ Do([op |-> R({"addstate", "addstate", "addstatenull"})])
AddBulk  == m.n + 3 <= NMax /\ Do([op |-> "addstates", k |-> R(0..3)])
Rm       == m.n > 1 /\ Do([op |-> "rmstate", a |-> R(St)])
Start    == m.n > 0 /\ Do([op |-> "setstart", a |-> R(St)])
NoStart  == Do([op |-> "clearstart"])
End      == m.n > 0 /\ Do([op |-> "setend", a |-> R(St), k |-> R({0, 1, 1, 2})])
Lit      == m.n > 0 /\ Do([op |-> "lit", a |-> R(St), b |-> R(St), k |-> R(1..Letters)])
AnyByte  == m.n > 0 /\ R(1..3) = 1 /\ Do([op |-> "any", a |-> R(St), b |-> R(St)])
Eps      == m.n > 0 /\ Do([op |-> "eps", a |-> R(St), b |-> R(St)])
EndId    == m.f # {} /\ Do([op |-> "endid", a |-> R(m.f), k |-> R(Ids)])
AllIds   == m.f # {} /\ R(1..3) = 1 /\ Do([op |-> "setendid", k |-> R(Ids)])
Incr     == R(1..3) = 1 /\ Do([op |-> "incr", k |-> R({1, 5})])
MapIds   == R(1..3) = 1 /\ Do(LET a == R(0..3) IN
              [op |-> "mapids", a |-> a, k |-> IF a = 3 THEN 1000000 ELSE R({2, 3, 50})])
Eager    == m.n > 0 /\ Do([op |-> "eager", a |-> R(St), k |-> R(Ids)])
EagerEnds == R(1..3) = 1 /\ Do([op |-> "eagerends", k |-> R(Ids)])
Filter   == m.n > 2 /\ R(1..3) = 1 /\ Do([op |-> "compact", ks |-> [q \in St |-> R({0, 1, 1})]])
Trim     == m.s # 0 /\ R(1..4) = 1 /\ Do([op |-> "trim", k |-> R(0..1)])
Collate  == m.n < NMax /\ R(1..3) = 1 /\ Do([op |-> "collate"])
MergeS   == m.n > 2 /\ R(1..2) = 1 /\ Do([op |-> "mergestates", a |-> R(St), b |-> R(St)])
Sub      == m.n > 0 /\ m.n + 2 <= NMax /\ R(1..2) = 1 /\
              Do(LET a == R(St) b == IF a < m.n THEN R({a + 1, a + 2}) ELSE a + 1
                 IN  [op |-> "subgraph", a |-> a, b |-> b, k |-> a])
Nop      == R(1..3) = 1 /\ Do([op |-> R({"vacuum", "clone", "move"})])

Next == /\ Len(h) < Depth
        /\ \/ AddState \/ AddBulk \/ Rm \/ Start \/ NoStart \/ End \/ Lit \/ AnyByte \/ Eps
           \/ EndId \/ AllIds \/ Incr \/ MapIds \/ Eager \/ EagerEnds
           \/ Filter \/ Trim \/ Collate \/ MergeS \/ Sub \/ Nop

Out == Len(h) < Depth \/ PrintT("HIST " \o ToJson(h))
=============================================================================
