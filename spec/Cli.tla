--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* What the command-line tools answer: the exit status of fsm(1) and re(1),  *)
(* and what they print, as a function of the languages of their inputs.      *)
(*                                                                           *)
(* X is the sequence of the invocation's operands, as automata, and T their   *)
(* tables (Aut's Tab).  A text is a sequence of symbols.                     *)
(***************************************************************************)
EXTENDS Preds, Integers

RECURSIVE After(_, _, _)
After(T, S, w) == IF w = <<>> THEN S ELSE After(T, TLCEval(Step(T, S, w[1])), Tail(w))
Member(T, w) == Acc(T, After(T, T.init, w))

Backwards(w) == [j \in 1..Len(w) |-> w[Len(w) - j + 1]]

RECURSIVE Splits(_, _)          \* w is a word of the first, then one of the second, ...
Splits(T, w) ==
    IF Len(T) = 1 THEN Member(T[1], w)
    ELSE \E j \in 0..Len(w) : Member(T[1], SubSeq(w, 1, j)) /\ Splits(Tail(T), SubSeq(w, j + 1, Len(w)))

InResult(op, T, w) ==
    CASE op = "identity"   -> Member(T[1], w)      \* and everything else which keeps the language
      [] op = "complement" -> ~ Member(T[1], w)
      [] op = "reverse"    -> Member(T[1], Backwards(w))
      [] op = "union"      -> \E j \in DOMAIN T : Member(T[j], w)
      [] op = "concat"     -> Splits(T, w)
      [] op = "intersect"  -> Member(T[1], w) /\ Member(T[2], w)
      [] op = "subtract"   -> Member(T[1], w) /\ ~ Member(T[2], w)

(* -U: only words over some symbols *)
InCut(r, w) == "cut" \notin DOMAIN r \/ \A j \in DOMAIN w : w[j] \in Rng(r.cut)

(* the exit status is 0 exactly when every text is in the language *)
ToolOk(r, X, T) ==
    (r.op = "concat" /\ \E j \in DOMAIN X : EmptyAnswer(X[j]) # 0)      \* refused
    \/ r.rc = B2(~ \A t \in DOMAIN r.texts : InCut(r, r.texts[t]) /\ InResult(r.op, T, r.texts[t]))

(* -z: for each text in turn, the patterns it matches *)
Matching(T, w) == SelectSeq([j \in DOMAIN T |-> j], LAMBDA j : Member(T[j], w))
RECURSIVE AllMatching(_, _)
AllMatching(T, texts) == IF texts = <<>> THEN <<>> ELSE Matching(T, texts[1]) \o AllMatching(T, Tail(texts))

(* is there a word for two of the patterns? *)
RECURSIVE Meet(_, _, _, _, _)
Meet(T, U, k, todo, seen) ==
    IF todo = {} THEN FALSE
    ELSE IF \E p \in todo : Acc(T, p[1]) /\ Acc(U, p[2]) THEN TRUE
    ELSE LET new == TLCEval({ <<Step(T, p[1], c), Step(U, p[2], c)>> : p \in todo, c \in 1..k } \ seen)
         IN  Meet(T, U, k, new, TLCEval(seen \cup new))
Overlap(T, U, k) == LET i == <<T.init, U.init>> IN Meet(T, U, k, {i}, {i})
Ambiguous(T, k) == \E i, j \in DOMAIN T : i < j /\ Overlap(T[i], T[j], k)

(* examples: in the language, and some if there are any; the patterns named with one are those it matches *)
ExamplesOk(r, X, T) ==
    /\ \A j \in DOMAIN r.ex : /\ \E i \in DOMAIN T : Member(T[i], r.ex[j].w)
                              /\ "ids" \in DOMAIN r.ex[j] => r.ex[j].ids = Matching(T, r.ex[j].w)
    /\ r.ex = <<>> => \A i \in DOMAIN X : EmptyAnswer(X[i]) # 0

(* matches up to a length: words of the language; one at least along each path of states *)
RECURSIVE PathOf(_, _, _)
PathOf(A, q, w) == IF w = <<>> THEN <<q>> ELSE IF A.t[q][w[1]] = <<>> THEN <<>> ELSE <<q>> \o PathOf(A, A.t[q][w[1]][1], Tail(w))
WordsTo(k, n) == UNION { [1..m -> 1..k] : m \in 0..n }
GeneratedOk(r, T, k) ==
    /\ \A j \in DOMAIN r.words : Len(r.words[j]) <= r.len /\ Member(T, r.words[j])
    /\ r.words = <<>> => \A w \in WordsTo(k, IF k > 6 THEN 2 ELSE r.len) : ~ Member(T, w)
PathsOk(r, A, T, k) ==
    /\ GeneratedOk(r, T, k)
    /\ LET got == TLCEval({ PathOf(A, A.s, r.words[j]) : j \in DOMAIN r.words })
       IN  \A w \in WordsTo(k, r.len) : Member(T, w) => PathOf(A, A.s, w) \in got

(* re -q equal: each pattern equals the union of those up to it *)
Both(A, B) ==
    LET S == Side(A, B, A.n + B.n + 1, A.f \o Shift(B.f, A.n))
        from == IF A.s = 0 THEN (IF B.s = 0 THEN <<>> ELSE <<B.s + A.n>>) ELSE IF B.s = 0 THEN <<A.s>> ELSE <<A.s, B.s + A.n>>
    IN  [ S EXCEPT !.n = @ + 1, !.e = Append(@, from), !.t = Append(@, [c \in Syms(A) |-> <<>>]),
                   !.i = Append(@, <<>>), !.g = Append(@, <<>>) ]
RECURSIVE JoinUpTo(_, _)
JoinUpTo(X, j) == IF j = 1 THEN X[1] ELSE TLCEval(Both(JoinUpTo(X, j - 1), X[j]))
Chain(X, k) == \A j \in DOMAIN X : SameLanguage(JoinUpTo(X, j), X[j], k)

(* -q: the exit status of a question about the states; what is printed *)
QueryOk(r, A) == r.rc = B2(~ IF r.all THEN \A q \in States(A) : Pred(r.p, A, q) ELSE \E q \in States(A) : Pred(r.p, A, q))
ClosuresOk(r, A) == Len(r.o) = A.n /\ \A q \in States(A) : Rng(r.o[q]) = EpsClo(A, {q}) /\ Len(r.o[q]) = Cardinality(EpsClo(A, {q}))

CliOk(r, X, T, k) ==
    CASE r.c = "tool"     -> ToolOk(r, X, T)
      [] r.c = "matched"  -> AllMatching(T, r.texts) = r.got
      [] r.c = "ambiguous" -> r.rc = B2(Ambiguous(T, k))
      [] r.c = "equals"   -> r.rc = B2(~ Chain(X, k))
      [] r.c = "examples" -> ExamplesOk(r, X, T)
      [] r.c = "generated" -> GeneratedOk(r, T[1], k)
      [] r.c = "paths"    -> PathsOk(r, X[1], T[1], k)
      [] r.c = "query"    -> QueryOk(r, X[1])
      [] r.c = "closures" -> ClosuresOk(r, X[1])
      [] r.c = "fails"    -> r.rc # 0
CliNames == {"tool", "matched", "ambiguous", "equals", "examples", "generated", "paths", "query", "closures", "fails"}
=============================================================================
