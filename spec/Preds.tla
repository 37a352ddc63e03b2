-------------------------------- MODULE Preds --------------------------------
(***************************************************************************)
(* What the predicates and queries on automata mean.                         *)
(***************************************************************************)
EXTENDS Aut

EdgesOn(A, q, c) == Cardinality(Rng(A.t[q][c]))
HasLabelled(A, q) == \E c \in DOMAIN A.t[q] : A.t[q][c] # <<>>
Clash(A, S) == \E c \in Syms(A) : Cardinality({ e \in S \X States(A) : e[2] \in Rng(A.t[e[1]][c]) }) > 1

Pred(name, A, q) ==
    CASE name = "isany"        -> TRUE
      [] name = "isend"        -> q \in Rng(A.f)
      [] name = "iscomplete"   -> \A c \in Syms(A) : EdgesOn(A, q, c) > 0
      [] name = "isdfa"        -> A.s # 0 /\ A.e[q] = <<>> /\ ~ Clash(A, {q})
      [] name = "hasepsilons"  -> A.e[q] # <<>>
      [] name = "epsilonsonly" -> A.e[q] # <<>> /\ ~ HasLabelled(A, q)
      [] name = "hasoutgoing"  -> A.e[q] # <<>> \/ HasLabelled(A, q)
      [] name = "hasincoming"  -> \E p \in States(A) : q \in Succs(A)[p]
      [] name = "hasnondeterminism" -> Clash(A, EpsClo(A, {q}))

B2(b) == IF b THEN 1 ELSE 0
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(S \ {x}, f)

(* how many bytes lead from q to p; z: the sizes of the classes *)
Freq(A, z, q, p) == SumOver({ c \in Syms(A) : p \in Rng(A.t[q][c]) }, z)
ModeOk(A, z, q, r) ==      \* r = <<state, 0 for none; frequency>>
    LET fr == TLCEval([p \in States(A) |-> Freq(A, z, q, p)])
        S == { p \in States(A) : fr[p] > 1 }
    IN  IF S = {} THEN r = <<0, 0>>
        ELSE r[1] \in S /\ r[2] = fr[r[1]] /\ \A p \in S : fr[p] <= r[2]

(* observed answers o for predicate name: per state p, n = <<count, has, all>>,
   r: per state <<any, all>> over the states reachable from it *)
PredOk(A, name, o) ==
    LET P == TLCEval([q \in States(A) |-> Pred(name, A, q)])
        T == { q \in States(A) : P[q] }
        sc == Succs(A)
        from == TLCEval([q \in States(A) |-> Reach(sc, {q}, {q})])
    IN  /\ \A q \in States(A) : o.p[q] = B2(P[q])
        /\ o.n = << Cardinality(T), B2(T # {}), B2(T = States(A)) >>
        /\ \A q \in States(A) : o.r[q] = << B2(from[q] \cap T # {}), B2(from[q] \subseteq T) >>

EdgeCount(A, z) == SumOver({ <<q, p>> \in States(A) \X States(A) : TRUE },
                           [e \in States(A) \X States(A) |-> Freq(A, z, e[1], e[2])])

EmptyAnswer(A) == IF A.s = 0 THEN -1 ELSE B2(FromStart(A) \cap Rng(A.f) = {})

(* the symbols which occur in every accepted word; n: the classes' sizes (a class
   of several bytes forces none of them) *)
RequiredSyms(A, n) == { c \in Syms(A) : n[c] = 1 /\ EmptyAnswer(Restrict(A, Syms(A) \ {c})) = 1 }

(* do two automata accept the same words? *)
RECURSIVE Agree(_, _, _, _, _)
Agree(T, U, k, todo, seen) ==
    IF todo = {} THEN TRUE
    ELSE IF \E p \in todo : Acc(T, p[1]) # Acc(U, p[2]) THEN FALSE
    ELSE LET new == TLCEval({ <<Step(T, p[1], c), Step(U, p[2], c)>> : p \in todo, c \in 1..k } \ seen)
         IN  Agree(T, U, k, new, TLCEval(seen \cup new))
SameLanguage(A, B, k) == LET T == Tab(A, k) U == Tab(B, k) i == <<T.init, U.init>> IN Agree(T, U, k, {i}, {i})
=============================================================================
