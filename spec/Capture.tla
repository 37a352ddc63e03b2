------------------------------ MODULE Capture ------------------------------
(***************************************************************************)
(* Capture paths.  An automaton carries paths <<id, from, to>>; a run over an *)
(* accepted word reports for each id where it first left `from' along a route  *)
(* to `to', and where, from there on, it last stood at `to'.  An automaton made *)
(* from another stands, in each of its states, for a set of the other's: the    *)
(* states it can be in there after the same word (exactly), or after any word    *)
(* that leads to the same state (at most).  Where the two agree on what is to    *)
(* be reported, that is what must be reported.  One state per case and stage.    *)
(***************************************************************************)
EXTENDS Aut, Json, IOUtils

VARIABLES cs, st

ASSUME TLCSet(11, JsonDeserialize(IOEnv.CASES))
Cases == TLCGet(11)
None == <<-1, -1>>

(* ---- the paths: routes follow labelled edges and do not revisit a state ---- *)
Lab(A) == TLCEval([q \in States(A) |-> UNION { Rng(A.t[q][c]) : c \in DOMAIN A.t[q] }])
Routes(A, p) ==     \* the states a route may enter first
    IF p[2] = p[3] THEN {}
    ELSE LET lab == Lab(A)
             less == TLCEval([q \in States(A) |-> lab[q] \ {p[2]}])
         IN  { t \in less[p[2]] : p[3] \in Reach(less, {t}, {t}) }
Leave(A, P) == TLCEval(UNION { { <<p[1], p[2], t>> : t \in Routes(A, p) } : p \in P })
Spot(P) == { <<p[1], p[2]>> : p \in { p \in P : p[2] = p[3] } }
Arrive(A, P) == TLCEval({ <<p[1], p[3]>> : p \in { p \in P : Routes(A, p) # {} } })

(* ---- what each state of a machine made from A stands for ---- *)
RECURSIVE Pairs(_, _, _, _, _)
Pairs(T, M, k, todo, seen) ==
    IF todo = {} THEN seen
    ELSE LET new == TLCEval({ x \in UNION { { <<Step(T, x[1], c), M.t[x[2]][c][1]>> : c \in { c \in 1..k : M.t[x[2]][c] # <<>> } } : x \in todo } : TRUE } \ seen)
         IN  Pairs(T, M, k, new, TLCEval(seen \cup new))
Stands(T, M, k) ==
    LET ps == IF M.s = 0 THEN {} ELSE Pairs(T, M, k, {<<T.init, M.s>>}, {<<T.init, M.s>>})
    IN  TLCEval([m \in States(M) |-> UNION { x[1] : x \in { x \in ps : x[2] = m } }])

(* ---- runs ---- *)
RunA(T, w) == LET f[j \in 0..Len(w)] == IF j = 0 THEN T.init ELSE Step(T, f[j - 1], w[j]) IN TLCEval([j \in 0..Len(w) |-> f[j]])
RunM(M, w) == LET f[j \in 0..Len(w)] == IF j = 0 THEN M.s
                        ELSE IF f[j - 1] = 0 THEN 0 ELSE LET d == M.t[f[j - 1]][w[j]] IN IF d = <<>> THEN 0 ELSE d[1]
              IN TLCEval([j \in 0..Len(w) |-> f[j]])

Report1(spots, leaves, at) ==   \* the first position opening, the last at the end after that
    IF spots \cup leaves = {} THEN None
    ELSE LET i0 == CHOOSE i \in spots \cup leaves : \A j \in spots \cup leaves : i <= j
             ends == { i \in at : i > i0 } \cup spots
         IN  IF ends = {} THEN None ELSE <<i0, CHOOSE i \in ends : \A j \in ends : i >= j>>

Exactly(A, S, w, id, lv, sp, ar) ==
    Report1({ i \in 0..Len(w) : \E x \in sp : x[1] = id /\ x[2] \in S[i] },
            { i \in 0..Len(w) : i < Len(w) /\ \E x \in lv : x[1] = id /\ x[2] \in S[i] /\ x[3] \in Rng(A.t[x[2]][w[i + 1]]) },
            { i \in 0..Len(w) : \E x \in ar : x[1] = id /\ x[2] \in S[i] })
AtMost(U, w, id, lv, sp, ar) ==
    Report1({ i \in 0..Len(w) : \E x \in sp : x[1] = id /\ x[2] \in U[i] },
            { i \in 0..Len(w) : i < Len(w) /\ \E x \in lv : x[1] = id /\ x[2] \in U[i] /\ x[3] \in U[i + 1] },
            { i \in 0..Len(w) : \E x \in ar : x[1] = id /\ x[2] \in U[i] })

(* o: <<result, <<positions of id 0, of id 1, ...>> >> *)
Got(o, id) == IF id + 1 \in DOMAIN o[2] THEN o[2][id + 1] ELSE None
Sane(o) == \A j \in DOMAIN o[2] : o[2][j] = None \/ (o[2][j][1] >= 0 /\ o[2][j][1] <= o[2][j][2])

Judge(c, g) ==
    LET A == c.a T == TLCEval(Tab(A, c.k)) P == Rng(c.p) ids == TLCEval({ p[1] : p \in P })
        lv == Leave(A, P) sp == Spot(P) ar == Arrive(A, P)
        M == g.m sd == Stands(T, M, c.k)
    IN  TLCEval([j \in DOMAIN c.w |->
            LET w == c.w[j] o == g.o[j] S == RunA(T, w) R == RunM(M, w)
                acc == Acc(T, S[Len(w)])
                U == TLCEval([i \in 0..Len(w) |-> sd[R[i]]])
            IN  IF o[1] # (IF acc THEN 1 ELSE IF M.s = 0 THEN -1 ELSE 0) THEN {-1}     \* without a start state, refused
                ELSE IF ~ acc THEN {}
                ELSE (IF Sane(o) THEN {} ELSE {-2})
                     \cup { id \in 0..(Len(o[2]) - 1) : id \notin ids /\ o[2][id + 1] # None }
                     \cup { id \in ids : LET lo == Exactly(A, S, w, id, lv, sp, ar) hi == AtMost(U, w, id, lv, sp, ar)
                                          IN  lo = hi /\ Got(o, id) # lo }])

Init == cs \in DOMAIN Cases /\ st = 1
Next == st < Len(Cases[cs].g) /\ st' = st + 1 /\ UNCHANGED cs
Bad == LET r == Judge(Cases[cs], Cases[cs].g[st]) IN { j \in DOMAIN r : r[j] # {} }
Report == LET b == TLCEval(Bad) IN b = {} \/ PrintT(<<"BAD", Cases[cs].id, b, <<st>> >>)
=============================================================================
