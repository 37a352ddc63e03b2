------------------------------- MODULE ReSelf -------------------------------
(***************************************************************************)
(* The specification against itself: for every pattern up to a size over a    *)
(* small set of atoms and anchors, and every short subject, the automaton     *)
(* RefAut accepts the subject exactly when the definition Matches it.          *)
(***************************************************************************)
EXTENDS ReLang

Reps == <<97, 98, 10>>          \* a, b, newline
AtomsUsed == {SetN({97}), SetN({97, 10}), Bol, Eol, Eos, Eps}

(* patterns of depth d *)
RECURSIVE Pats(_)
Pats(d) == IF d = 0 THEN AtomsUsed
           ELSE LET P == TLCEval(Pats(d - 1)) IN
                P \cup { RepN(x, 0, -1) : x \in P } \cup { RepN(x, 1, 2) : x \in P }
                  \cup { Alt(<<x, y>>) : x \in P, y \in AtomsUsed } \cup { Cat(<<x, y>>) : x \in P, y \in P }
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {<<>>} ELSE Words(n - 1) \cup { Append(w, b) : w \in { w \in Words(n - 1) : Len(w) = n - 1 }, b \in Rng(Reps) }

Sample == TLCEval(Pats(1))
Deep == TLCEval({ Cat(<<x, y>>) : x \in Sample, y \in { RepN(z, 0, -1) : z \in Sample } })
W == TLCEval(Words(4))

RECURSIVE Run(_, _, _, _)
Run(T, S, w, j) == IF j > Len(w) THEN S ELSE Run(T, Step(T, S, CHOOSE c \in DOMAIN Reps : Reps[c] = w[j]), w, j + 1)

VARIABLES pat, anch
Init == pat \in Sample \cup Deep /\ anch \in (IF HasEol(pat) THEN {FALSE} ELSE BOOLEAN)
Next == UNCHANGED <<pat, anch>>
Agree == LET T == TLCEval(Tab(RefAut(pat, anch, Reps), 3))
         IN  \A w \in W : Acc(T, Run(T, T.init, w, 1)) = Matches(pat, w, anch)
=============================================================================
