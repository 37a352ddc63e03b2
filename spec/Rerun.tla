------------------------------- MODULE Rerun -------------------------------
(***************************************************************************)
(* The library as a function of what it is asked: the same calls, made in     *)
(* another process, after other work, over memory that held something else,    *)
(* must be answered the same.  All runs of one program are followed together;  *)
(* told holds what the operation at this point of the program has answered to   *)
(* the runs seen so far.  An operation has one answer, or the machine stops.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

ASSUME TLCSet(11, JsonDeserialize(IOEnv.CASES))
Cases == TLCGet(11)

VARIABLES cs, at, run, told
vars == <<cs, at, run, told>>

Runs == Cases[cs].runs
Has(j) == at <= Len(Runs[j])
Answer(j) == IF Has(j) THEN Runs[j][at] ELSE "none"
Last == \A j \in DOMAIN Runs : ~ Has(j)

Init == cs \in DOMAIN Cases /\ at = 1 /\ run = 0 /\ told = {}
Hear == /\ run < Len(Runs)
        /\ run' = run + 1 /\ told' = told \cup {Answer(run + 1)}
        /\ UNCHANGED <<cs, at>>
Step == /\ run = Len(Runs) /\ ~ Last
        /\ at' = at + 1 /\ run' = 0 /\ told' = {}
        /\ UNCHANGED cs
Next == Cardinality(told) <= 1 /\ (Hear \/ Step)
Spec == Init /\ [][Next]_vars

Bad == IF Cardinality(told) > 1 THEN {at} ELSE {}
Report == Bad = {} \/ (PrintT(<<"BAD", Cases[cs].id, Bad, <<run>> >>) /\ FALSE)
=============================================================================
