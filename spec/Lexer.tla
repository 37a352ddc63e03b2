-------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* What a lexer specification for lx(1) means: which specifications are      *)
(* ambiguous, and how a generated lexer divides its input into tokens.       *)
(*                                                                           *)
(* A case has, for each zone, its mappings -- an expression over patterns,   *)
(* the token it gives (or "" to skip) and the zone it leads to (0: it stays) *)
(* -- and the runs recorded from the generated lexer.  One state per case.   *)
(***************************************************************************)
EXTENDS Cli, ReLang, Json, IOUtils, SequencesExt

VARIABLE cs

ASSUME TLCSet(11, JsonDeserialize(IOEnv.CASES))
Cases == TLCGet(11)
Has(r, x) == x \in DOMAIN r

(* ---- what expressions denote ---- *)
OneOf(k, f, t) == [n |-> Len(t), s |-> 1, f |-> f, e |-> [q \in DOMAIN t |-> <<>>],
                   t |-> [q \in DOMAIN t |-> [c \in 1..k |-> t[q]]], i |-> [q \in DOMAIN t |-> <<>>], g |-> [q \in DOMAIN t |-> <<>>]]
Never(k) == OneOf(k, <<>>, << <<>> >>)
Epsilon(k) == OneOf(k, <<1>>, << <<>> >>)
AnySym(k) == OneOf(k, <<2>>, << <<2>>, <<>> >>)

(* the bound on what is examined: a case past it is left undecided, and counted *)
TooMany(seen) == Cardinality(seen) > 700 /\ TLCSet(12, TRUE)
(* the words for which W holds of being in the one, and in the other *)
RECURSIVE Pairs(_, _, _, _, _)
Pairs(T, U, k, todo, seen) ==
    IF todo = {} \/ TooMany(seen) THEN seen
    ELSE LET new == TLCEval({ <<Step(T, p[1], c), Step(U, p[2], c)>> : p \in todo, c \in 1..k } \ seen)
         IN  Pairs(T, U, k, new, TLCEval(seen \cup new))
(* states of a complete deterministic D no word tells apart, merged: cl gives each its class *)
RECURSIVE Alike(_, _, _)
Alike(D, k, cl) ==
    LET sig == TLCEval([q \in 1..D.n |-> <<cl[q], TLCEval([c \in 1..k |-> cl[D.t[q][c][1]]])>>])
        new == TLCEval([q \in 1..D.n |-> CHOOSE p \in 1..q : sig[p] = sig[q] /\ \A r \in 1..(p - 1) : sig[r] # sig[q]])
    IN  IF new = cl THEN cl ELSE Alike(D, k, new)
Smallest(D, k) ==
    LET ends == Rng(D.f)
        cl == TLCEval(Alike(D, k, TLCEval([q \in 1..D.n |-> IF q \in ends THEN 0 ELSE -1])))
        keep == TLCEval({ q \in 1..D.n : cl[q] = q })
    IN  KeepStates([D EXCEPT !.s = cl[D.s],
                             !.t = TLCEval([q \in 1..D.n |-> TLCEval([c \in 1..k |-> <<cl[D.t[q][c][1]]>>])])], keep)
(* evaluated through and through *)
Solid(A) == [ n |-> A.n, s |-> A.s, f |-> TLCEval(A.f), e |-> TLCEval([q \in 1..A.n |-> TLCEval(A.e[q])]),
              t |-> TLCEval([q \in 1..A.n |-> TLCEval([c \in DOMAIN A.t[q] |-> TLCEval(A.t[q][c])])]),
              i |-> TLCEval([q \in 1..A.n |-> TLCEval(A.i[q])]), g |-> TLCEval([q \in 1..A.n |-> TLCEval(A.g[q])]) ]
Combine(A, B, k, W(_, _)) ==
    LET T == TLCEval(Tab(A, k)) U == TLCEval(Tab(B, k))
        i == <<T.init, U.init>>
        ps == TLCEval(<<i>> \o SetToSeq1(Pairs(T, U, k, {i}, {i}) \ {i}))
        num == TLCEval([p \in Rng(ps) |-> CHOOSE j \in DOMAIN ps : ps[j] = p])
        Num(p) == IF p \in DOMAIN num THEN num[p] ELSE 1
        D == [ n |-> Len(ps), s |-> 1,
               f |-> SelectSeq([j \in DOMAIN ps |-> j], LAMBDA j : W(Acc(T, ps[j][1]), Acc(U, ps[j][2]))),
               e |-> [j \in DOMAIN ps |-> <<>>],
               t |-> [j \in DOMAIN ps |-> [c \in 1..k |-> <<Num(<<Step(T, ps[j][1], c), Step(U, ps[j][2], c)>>)>>]],
               i |-> [j \in DOMAIN ps |-> <<>>], g |-> [j \in DOMAIN ps |-> <<>>] ]
        M == TLCEval(Solid(Smallest(D, k)))
        K == TLCEval(TrimKeep(M, TRUE))
    IN  TLCEval(IF M.s \notin K THEN Never(k) ELSE Solid(KeepStates(M, K)))
Subtract(A, B, k) == Combine(A, B, k, LAMBDA x, y : x /\ ~y)
Intersect(A, B, k) == Combine(A, B, k, LAMBDA x, y : x /\ y)
Invert(A, k) == Combine(A, Never(k), k, LAMBDA x, y : ~x)
Nothing(A) == EmptyAnswer(A) # 0

Iterate(A, k, once, again) ==   \* a fresh start and end about A
    LET e1 == A.n + 1 e2 == A.n + 2
        none == [c \in 1..k |-> <<>>]
    IN  [ n |-> A.n + 2, s |-> e1, f |-> <<e2>>,
          e |-> [q \in 1..(A.n + 2) |-> CASE q = e1 -> <<A.s>> \o (IF once THEN <<>> ELSE <<e2>>)
                                          [] q = e2 -> IF again THEN <<e1>> ELSE <<>>
                                          [] OTHER -> A.e[q] \o (IF q \in Rng(A.f) THEN <<e2>> ELSE <<>>)],
          t |-> [q \in 1..(A.n + 2) |-> IF q > A.n THEN none ELSE A.t[q]],
          i |-> [q \in 1..(A.n + 2) |-> <<>>], g |-> [q \in 1..(A.n + 2) |-> <<>>] ]

RePart(C, x) ==
    LET r == TLCEval(Parse(x.text, x.d, Rng(x.fl)))
        on == x.d = "literal" \/ "anch" \in Rng(x.fl)
    IN  IF r.st = "ok" THEN RefAut2(r.n, on, on, C.rep) ELSE Never(C.k)

(* all the patterns are ones the specification has a meaning for, with the
   symbols given *)
RECURSIVE Leaves(_)
Leaves(x) == CASE x.op = "re" -> {x}
               [] x.op = "any" -> {}
               [] OTHER -> UNION { Leaves(x.a[j]) : j \in DOMAIN x.a }
LeafOk(C, x) == LET r == TLCEval(Parse(x.text, x.d, Rng(x.fl)))
                IN  r.st = "ok" /\ Saturated(r.n, C.cls, C.rep)

RECURSIVE Denote(_, _)
Denote(C, x) ==
    IF x.op = "re" THEN TLCEval(RePart(C, x))
    ELSE IF x.op = "any" THEN AnySym(C.k)
    ELSE LET A == TLCEval(Denote(C, x.a[1]))
             B == IF Len(x.a) > 1 THEN TLCEval(Denote(C, x.a[2])) ELSE A
         IN  TLCEval(CASE x.op = "cat"  -> Concat(A, B)
               [] x.op = "alt"  -> Both(A, B)
               [] x.op = "sub"  -> Subtract(A, B, C.k)
               [] x.op = "and"  -> Intersect(A, B, C.k)
               [] x.op = "not"  -> Invert(A, C.k)
               [] x.op = "rev"  -> Mirror(A)
               [] x.op = "same" -> A
               [] x.op = "star" -> Iterate(A, C.k, FALSE, TRUE)
               [] x.op = "plus" -> Iterate(A, C.k, TRUE, TRUE)
               [] x.op = "opt"  -> Iterate(A, C.k, FALSE, FALSE))

(* operators on a pattern which matches nothing are left open, but in - & | *)
RECURSIVE Open(_, _)
Open(C, x) ==
    CASE x.op \in {"re", "any"} -> FALSE
      [] x.op \in {"sub", "and", "alt"} -> \E j \in DOMAIN x.a : Open(C, x.a[j])
      [] OTHER -> \E j \in DOMAIN x.a : Open(C, x.a[j]) \/ Nothing(Denote(C, x.a[j]))

(* ---- zones ---- *)
(* all a zone's mappings as one automaton, an end's ids being the mappings; mappings
   for the same token and zone are one *)
Key(m) == <<m.tok, m.to>>
RECURSIVE Join(_, _, _)
Join(C, ms, j) ==
    LET A == Denote(C, ms[j].x)
        id == CHOOSE x \in DOMAIN ms : Key(ms[x]) = Key(ms[j]) /\ \A y \in DOMAIN ms : Key(ms[y]) = Key(ms[j]) => x <= y
        T == TLCEval(Tagged([A EXCEPT !.i = [q \in States(A) |-> <<>>]], id))
    IN  IF j = Len(ms) THEN T
        ELSE LET R == TLCEval(Join(C, ms, j + 1))
             IN  LET S == Side(T, R, T.n + R.n + 1, T.f \o Shift(R.f, T.n))
                 IN  TLCEval([ S EXCEPT !.n = @ + 1, !.e = Append(@, <<T.s, R.s + T.n>>), !.t = Append(@, [c \in 1..C.k |-> <<>>]),
                                        !.i = Append(@, <<>>), !.g = Append(@, <<>>) ])
ZoneAut(C, ms) ==
    LET J == TLCEval(Join(C, ms, 1))
        K == TLCEval(TrimKeep(J, TRUE))
    IN  IF J.s \notin K THEN Never(C.k) ELSE KeepStates(J, K)
Zone(C, z) == TLCEval(Tab(ZoneAut(C, C.zones[z].maps), C.k))

(* ---- ambiguity (P28) ---- *)
RECURSIVE Sets(_, _, _, _)
Sets(T, k, todo, seen) ==
    IF todo = {} \/ TooMany(seen) THEN seen
    ELSE LET new == TLCEval({ Step(T, S, c) : S \in todo, c \in 1..k } \ seen)
         IN  Sets(T, k, new, TLCEval(seen \cup new))
Torn(T, k) == \E S \in Sets(T, k, {T.init}, {T.init}) : Cardinality(Ids(T, S)) > 1
StartAccepts(T) == Acc(T, T.init)

(* a diagnosis names what one text could be *)
Called(m) == <<m.tok, CASE m.to = 0 -> "stay" [] m.to = 1 -> "global" [] OTHER -> "zone">>
RECURSIVE Reached(_, _, _, _)
Reached(T, S, w, j) == IF j > Len(w) THEN S ELSE Reached(T, TLCEval(Step(T, S, w[j])), w, j + 1)
TrueOf(C, Z, d) ==
    IF d.w = <<>> THEN \E z \in DOMAIN Z : StartAccepts(Z[z])
    ELSE \E z \in DOMAIN Z : LET ids == Ids(Z[z], Reached(Z[z], Z[z].init, d.w, 1)) IN
             /\ Cardinality(ids) > 1
             /\ { Called(C.zones[z].maps[m]) : m \in ids } = { <<d.names[j][1], d.names[j][2]>> : j \in DOMAIN d.names }

(* ---- tokens (P27) ---- *)
(* the longest prefix which is the start of some mapping's text: the symbols
   read, and the mapping accepted (0: none) *)
RECURSIVE Longest(_, _, _, _)
Longest(T, S, w, j) ==      \* w from j on
    LET N == IF j > Len(w) THEN {} ELSE Step(T, S, w[j])
    IN  IF N = {} THEN [to |-> j, m |-> IF Acc(T, S) THEN CHOOSE x \in Ids(T, S) : TRUE ELSE 0]
        ELSE Longest(T, N, w, j + 1)

(* the position after reading the bytes from..to-1 *)
Past(p, b) == IF b = 10 THEN <<p[1] + 1, p[2] + 1, 1>> ELSE <<p[1] + 1, p[2], p[3] + 1>>
RECURSIVE Reads(_, _, _, _)
Reads(b, p, from, to) == IF from >= to THEN p ELSE Reads(b, TLCEval(Past(p, b[from])), from + 1, to)

(* a token: <<name, start, end, text>>; only the name and start for UNKNOWN, after
   which there is only EOF *)
RECURSIVE Tokens(_, _, _, _, _, _, _)
Tokens(C, Z, z, w, b, j, p) ==
    IF j > Len(w) THEN << [t |-> "EOF", e |-> p] >>
    ELSE LET l == TLCEval(Longest(Z[z], Z[z].init, w, j))
         IN  IF l.m = 0 THEN << [t |-> "UNKNOWN", s |-> p], [t |-> "EOF"] >>
             ELSE LET m == C.zones[z].maps[l.m]
                      q == TLCEval(Reads(b, p, j, l.to))
                      y == IF m.to = 0 THEN z ELSE m.to
                  IN  IF m.tok # "" THEN << [t |-> m.tok, s |-> p, e |-> q, x |-> SubSeq(b, j, l.to - 1)] >> \o Tokens(C, Z, y, w, b, l.to, q)
                      \* input which ends inside a zone, its end missing
                      ELSE IF l.to > Len(w) /\ m.to = 0 /\ C.zones[z].paired
                      THEN << [t |-> "UNKNOWN", s |-> p], [t |-> "EOF"] >>
                      ELSE Tokens(C, Z, y, w, b, l.to, q)

TokenOk(m, o, r) ==
    /\ o.t = m.t
    /\ r.pos /\ Has(m, "s") => o.s = m.s
    /\ r.pos /\ Has(m, "e") => o.e = m.e
    /\ r.buf /\ Has(m, "x") => o.x = m.x
RunOk(C, Z, r) ==
    LET ts == TLCEval(Tokens(C, Z, 1, r.w, r.b, 1, <<0, 1, 1>>))
    IN  /\ Len(ts) = Len(r.o)
        /\ \A j \in DOMAIN ts : TokenOk(ts[j], r.o[j], r)

Exprs(C) == UNION { { C.zones[z].maps[j].x : j \in DOMAIN C.zones[z].maps } : z \in DOMAIN C.zones }
Judged(C) ==
    IF \E x \in Exprs(C) : \E y \in Leaves(x) : ~ LeafOk(C, y) THEN {-3}
    ELSE IF \E x \in Exprs(C) : Open(C, x) THEN {}
    ELSE LET Z == TLCEval([z \in DOMAIN C.zones |-> Zone(C, z)])
             amb == \E z \in DOMAIN Z : StartAccepts(Z[z]) \/ Torn(Z[z], C.k)
         IN  IF \E z \in DOMAIN Z : Z[z].f = {} THEN {}      \* a zone where nothing matches is left open
             ELSE IF C.st = "crash" THEN {-4}
             ELSE IF (C.st = "ok") = amb THEN {IF amb THEN -1 ELSE -2}
             ELSE IF amb THEN IF C.told # <<>> /\ \A j \in DOMAIN C.told : TrueOf(C, Z, C.told[j]) THEN {} ELSE {-5}
             ELSE { j \in DOMAIN C.runs : ~ RunOk(C, Z, C.runs[j]) }
Verdict(C) ==
    IF TLCSet(12, FALSE)
    THEN LET v == TLCEval(Judged(C))
         IN  IF Cardinality(v) >= 0 /\ TLCGet(12) THEN IF PrintT(<<"UNDECIDED", C.id>>) THEN {} ELSE {} ELSE v
    ELSE {}

Init == cs \in DOMAIN Cases
Next == FALSE /\ cs' = cs
Report == LET bad == TLCEval(Verdict(Cases[cs])) IN bad = {} \/ (PrintT(<<"BAD", Cases[cs].id, bad, <<>>>>) /\ FALSE)
=============================================================================
