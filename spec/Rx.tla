-------------------------------- MODULE Rx --------------------------------
(***************************************************************************)
(* rx(1): files of patterns, one to a line.  The machine reads the lines in  *)
(* their order, gives each an id, and puts it among the literals, the        *)
(* general patterns or the declined ones; then it compiles the general ones, *)
(* which may decline more of them.  What libre makes of each pattern is in   *)
(* the case (judged by other modules); which lines are compiled, with which  *)
(* ids, which are declined, and whether the run fails, is decided here, and  *)
(* compared with what the program did.                                      *)
(*                                                                         *)
(* A line: f (its file), k ("literal", "empty", "general", "error",          *)
(* "unsupported", "unsat", "barred": a literal outside the character set), c (whether it compiles: "ok" or "unsupported"),  *)
(* s (its text).                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

VARIABLES cs, at, out, kept, declined, failed
vars == <<cs, at, out, kept, declined, failed>>

ASSUME TLCSet(11, JsonDeserialize(IOEnv.CASES))
Cases == TLCGet(11)
C == Cases[cs]

(* one file: the number of the line; more: the number of the file *)
Id(j) == IF C.files = 1 THEN j - 1 ELSE C.lines[j].f - 1

IsGeneral(l) == l.k \in {"empty", "general"}
GeneralKept == { j \in DOMAIN kept : IsGeneral(C.lines[kept[j]]) }

Init == /\ cs \in DOMAIN Cases
        /\ at = 1
        /\ out = <<>>           \* what is said of each line
        /\ kept = <<>>
        /\ declined = <<>>
        /\ failed = FALSE

Keep(l) == \/ l.k = "literal"
           \/ IsGeneral(l) /\ (C.limit = 0 \/ Cardinality(GeneralKept) < C.limit)

(* strict runs fail at malformed and unsatisfiable patterns; those not supported are
   declined all the same *)
Fatal(l) == C.strict /\ l.k \in {"error", "unsat", "barred"}

Categorise ==
    LET l == C.lines[at]
    IN  /\ at \in DOMAIN C.lines
        /\ ~ failed
        /\ out' = Append(out, <<l.k, Id(at)>>)
        /\ failed' = Fatal(l)
        /\ kept' = IF Keep(l) THEN Append(kept, at) ELSE kept
        /\ declined' = IF Keep(l) \/ Fatal(l) THEN declined ELSE Append(declined, at)
        /\ at' = at + 1
        /\ UNCHANGED cs

(* then each general pattern in turn: at counts on through kept *)
Compile ==
    LET m == at - Len(C.lines)
        l == C.lines[kept[m]]
    IN  /\ at > Len(C.lines)
        /\ m \in DOMAIN kept
        /\ ~ failed
        /\ declined' = IF IsGeneral(l) /\ l.c = "unsupported" THEN Append(declined, kept[m]) ELSE declined
        /\ at' = at + 1
        /\ UNCHANGED <<cs, out, kept, failed>>

Next == Categorise \/ Compile
Spec == Init /\ [][Next]_vars

Done == failed \/ at > Len(C.lines) + Len(kept)

Declined == [j \in DOMAIN declined |-> C.lines[declined[j]].s]
Compiled == { j \in DOMAIN C.lines : \E m \in DOMAIN kept : kept[m] = j /\ C.lines[j].c # "unsupported" }

(* every line ends up in exactly one place *)
Conserved == Done /\ ~ failed =>
    \A j \in DOMAIN C.lines : (j \in Compiled) # (\E m \in DOMAIN declined : declined[m] = j)

(* kinds the program's report does not tell apart *)
Said(k) == IF k = "empty" THEN "general" ELSE k

(* what the program did: rc, the declined patterns it wrote, what it said of each line *)
Verdict ==
    IF failed THEN IF C.got.rc # 0 THEN "ok" ELSE "ran where it must fail"
    ELSE IF C.got.rc # 0 THEN "failed where it must run"
    ELSE IF C.got.declined # Declined THEN "declined others"
    ELSE IF C.got.dids # [j \in DOMAIN declined |-> Id(declined[j])] THEN "numbers the declined otherwise"
    ELSE IF C.got.said # [j \in DOMAIN out |-> <<Said(out[j][1]), out[j][2]>>] THEN "categorised otherwise"
    ELSE "ok"

(* the lines to be found in the program compiled, for spec/LangCheck.tla *)
Report == ~ Done \/ PrintT(<<"RX", C.id, failed, Verdict, { <<j, Id(j)>> : j \in Compiled }>>)
=============================================================================
