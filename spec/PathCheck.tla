----------------------------- MODULE PathCheck -----------------------------
(***************************************************************************)
(* Least-cost paths, examples, and the enumeration of matches, against the   *)
(* automata they were asked of.  One state per case.                         *)
(*   te: labelled edges as <<from, to, lo, hi>> over bytes, states from 0.    *)
(***************************************************************************)
EXTENDS Aut, Json, IOUtils, SequencesExt

VARIABLE cs

ASSUME TLCSet(11, JsonDeserialize(IOEnv.CASES))
Cases == TLCGet(11)
Inf == 2000000000
Min2(a, b) == IF a < b THEN a ELSE b

(* ---- costs ---- *)
Rank(b) == CASE b \in 97..122 -> 1 [] b \in 65..90 -> 2 [] b \in 48..57 -> 3
             [] b \in (33..47) \cup (58..64) \cup (91..96) \cup (123..126) -> 4
             [] b \in (9..13) \cup {32} -> 5 [] OTHER -> 10
LegibleTab == TLCEval([b \in 0..255 |-> 1000 * Rank(b) + b])
ASSUME TLCSet(12, LegibleTab)
Printable(b) == b \in 32..126
CostOf(kind, b) == CASE kind = 0 -> 1 [] kind = 1 -> TLCGet(12)[b] [] kind = 2 -> 1 + (b % 7)

(* the cheapest byte of an edge, and distances from s by relaxation *)
MinOf(kind, lo, hi) == LET f[b \in lo..hi] == IF b = hi THEN CostOf(kind, b) ELSE Min2(CostOf(kind, b), f[b + 1]) IN f[lo]
RECURSIVE Relax(_, _)
Relax(W, d) ==      \* W: <<from, to, cost>>
    LET d2 == TLCEval([q \in DOMAIN d |-> LET via == { d[e[1]] + e[3] : e \in { e \in W : e[2] = q /\ d[e[1]] < Inf } } \cup {d[q]}
                                          IN CHOOSE x \in via : \A y \in via : x <= y])
    IN  IF d2 = d THEN d ELSE Relax(W, d2)
Dist(te, n, kind, s) ==
    Relax(TLCEval({ <<te[j][1], te[j][2], MinOf(kind, te[j][3], te[j][4])>> : j \in DOMAIN te }),
          [q \in 0..(n - 1) |-> IF q = s THEN 0 ELSE Inf])

Edge(te, f, t, b) == \E j \in DOMAIN te : te[j][1] = f /\ te[j][2] = t /\ te[j][3] <= b /\ b <= te[j][4]
Sum(q) == LET f[j \in 0..Len(q)] == IF j = 0 THEN 0 ELSE f[j - 1] + q[j] IN f[Len(q)]

(* p: the path returned, <<state, byte>> from the start *)
PathOk(w) ==
    LET d == Dist(w.te, w.n, w.cost, w.s)
        reached == d[w.g] < Inf
    IN  /\ w.p # <<>>
        /\ IF reached
           THEN /\ w.p[1][1] = w.s /\ w.p[Len(w.p)][1] = w.g
                /\ \A j \in 2..Len(w.p) : Edge(w.te, w.p[j - 1][1], w.p[j][1], w.p[j][2])
                /\ Sum([j \in 1..(Len(w.p) - 1) |-> CostOf(w.cost, w.p[j + 1][2])]) = d[w.g]
           ELSE \A j \in DOMAIN w.p : w.p[j][1] # w.g

(* ---- examples: the text of a least-cost path ---- *)
Hex(b) == CASE b \in 48..57 -> b - 48 [] b \in 97..102 -> b - 87 [] b \in 65..70 -> b - 55 [] OTHER -> -1
Succ(te, f, b) == { te[j][2] : j \in { j \in DOMAIN te : te[j][1] = f /\ te[j][3] <= b /\ b <= te[j][4] } }
RECURSIVE Decode(_, _, _, _)
Decode(te, x, i, S) ==      \* S[i]: <<state, cost>> pairs having read x[1..i-1]
    IF i > Len(x) THEN S[i]
    ELSE LET b == x[i]
             lit == IF Printable(b) THEN UNION { { <<t, p[2] + CostOf(1, b)>> : t \in Succ(te, p[1], b) } : p \in S[i] } ELSE {}
             esc == b = 92 /\ i + 3 <= Len(x) /\ x[i + 1] = 120 /\ Hex(x[i + 2]) >= 0 /\ Hex(x[i + 3]) >= 0
             v == IF esc THEN 16 * Hex(x[i + 2]) + Hex(x[i + 3]) ELSE 0
             far == IF esc /\ ~ Printable(v) THEN UNION { { <<t, p[2] + CostOf(1, v)>> : t \in Succ(te, p[1], v) } : p \in S[i] } ELSE {}
         IN  Decode(te, x, i + 1, TLCEval([j \in DOMAIN S |-> IF j = i + 1 THEN S[j] \cup lit
                                                             ELSE IF j = i + 4 THEN S[j] \cup far ELSE S[j]]))
(* o[q]: <<returned length, text, buffer untouched beyond its end, terminated>> *)
ExampleOk(w, d, q) ==
    LET o == w.o[q + 1]
    IN  IF d[q] < Inf
        THEN /\ o[1] >= 0 /\ o[3] = 1
             /\ (o[1] < w.buf => /\ Len(o[2]) = o[1] /\ o[4] = 1
                                 /\ <<q, d[q]>> \in Decode(w.te, o[2], 1, [j \in 1..(Len(o[2]) + 5) |-> IF j = 1 THEN {<<w.s, 0>>} ELSE {}]))
        ELSE o[3] = 1 /\ o[1] <= 0
ExamplesOk(w) == LET d == Dist(w.te, w.n, 1, w.s) IN \A q \in 0..(w.n - 1) : ExampleOk(w, d, q)

(* ---- enumeration: one word for each accepting path of states ---- *)
RECURSIVE PathsFrom(_, _, _, _)
PathsFrom(A, prune, L, P) ==     \* P: paths of one length
    IF P = {} THEN {}
    ELSE LET ends == { p \in P : p[Len(p)] \in Rng(A.f) }
             grow == IF L = 0 THEN {}
                     ELSE UNION { { Append(p, q) : q \in UNION { Rng(A.t[p[Len(p)]][c]) : c \in Syms(A) } } :
                                  p \in IF prune THEN P \ ends ELSE P }
         IN  ends \cup PathsFrom(A, prune, L - 1, TLCEval(grow))
RECURSIVE Walk(_, _, _)
Walk(A, p, x) ==
    IF x = <<>> THEN p
    ELSE LET d == A.t[p[Len(p)]][Head(x)] IN IF d = <<>> THEN <<>> ELSE Walk(A, Append(p, d[1]), Tail(x))
(* m: words (as classes) reported; b: the end states reported with them, in the
   numbering of the automaton afterwards, y *)
MatchesOk(w) ==
    LET A == Cases[cs].a[1]
        Y == Cases[cs].a[2]
        all == IF A.s = 0 THEN {} ELSE PathsFrom(A, w.prune = 1, w.len, {<<A.s>>})
        got == [j \in DOMAIN w.m |-> Walk(A, <<A.s>>, w.m[j])]
        after == [j \in DOMAIN w.m |-> Walk(Y, <<Y.s>>, w.m[j])]
    IN  /\ \A j \in DOMAIN got : got[j] # <<>> /\ got[j] \in all
        /\ \A j \in DOMAIN got : w.b[j] = Last(after[j])
        /\ Cardinality(Rng(got)) = Len(got)
        /\ Len(got) = IF Cardinality(all) < w.cap THEN Cardinality(all) ELSE w.cap

Ok(w) == CASE w.c = "path" -> PathOk(w) [] w.c = "examples" -> ExamplesOk(w) [] w.c = "matches" -> MatchesOk(w)

Init == cs \in DOMAIN Cases
Next == FALSE /\ cs' = cs
Bad == { m \in DOMAIN Cases[cs].w : ~ Ok(Cases[cs].w[m]) }
Report == Bad = {} \/ (PrintT(<<"BAD", Cases[cs].id, Bad, <<>>>>) /\ FALSE)
=============================================================================
