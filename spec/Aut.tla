-------------------------------- MODULE Aut --------------------------------
(***************************************************************************)
(* Finite automata as mathematical objects: what libfsm's struct fsm        *)
(* denotes.  An automaton is a record                                       *)
(*    n     number of states, the states are 1..n                           *)
(*    s     the start state, 0 when there is none                           *)
(*    f     sequence of end states                                          *)
(*    e     e[q]    = sequence of epsilon successors of q                   *)
(*    t     t[q][c] = sequence of successors of q on symbol class c         *)
(*    i     i[q]    = sequence of end ids of q                              *)
(*    g     g[q]    = sequence of eager output ids of q                     *)
(* Symbols are classes 1..k of bytes no automaton of a case tells apart.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(q) == { q[i] : i \in DOMAIN q }

States(A) == 1..A.n

(* ---- basic relations ---- *)
RECURSIVE Reach(_, _, _)
Reach(succ, todo, seen) ==
    IF todo = {} THEN seen
    ELSE LET new == TLCEval((UNION { succ[q] : q \in todo }) \ seen)
         IN  Reach(succ, new, TLCEval(seen \cup new))

EpsClo(A, S) == Reach(TLCEval([q \in States(A) |-> Rng(A.e[q])]), S, S)

Succs(A) == TLCEval([q \in States(A) |-> Rng(A.e[q]) \cup UNION { Rng(A.t[q][c]) : c \in DOMAIN A.t[q] }])

(***************************************************************************)
(* Tables: the closed one-symbol move of every state.  For a set S of       *)
(* states closed under epsilon, reading c leads to UNION {mv[q][c] : q}.     *)
(***************************************************************************)
Tab(A, k) ==
    LET clo == TLCEval([q \in States(A) |-> EpsClo(A, {q})])
    IN  TLCEval([ n    |-> A.n,
          init |-> IF A.s = 0 THEN {} ELSE clo[A.s],
          mv   |-> TLCEval([q \in States(A) |-> TLCEval([c \in 1..k |-> UNION { clo[p] : p \in Rng(A.t[q][c]) }])]),
          f    |-> Rng(A.f),
          i    |-> TLCEval([q \in States(A) |-> Rng(A.i[q])]),
          g    |-> TLCEval([q \in States(A) |-> Rng(A.g[q])]) ])

Step(T, S, c) == UNION { T.mv[q][c] : q \in S }
Acc(T, S) == S \cap T.f # {}
Ids(T, S) == UNION { T.i[q] : q \in S \cap T.f }
Eag(T, S) == UNION { T.g[q] : q \in S }

(* ---- constructions that denote the operations ---- *)
Shift(seq, b) == [j \in DOMAIN seq |-> seq[j] + b]

(* side by side: b's states after a's *)
Side(a, b, start, fin) ==
    [ n |-> a.n + b.n, s |-> start, f |-> fin,
      e |-> [q \in 1..(a.n + b.n) |-> IF q <= a.n THEN a.e[q] ELSE Shift(b.e[q - a.n], a.n)],
      t |-> [q \in 1..(a.n + b.n) |-> IF q <= a.n THEN a.t[q]
                ELSE [c \in DOMAIN b.t[q - a.n] |-> Shift(b.t[q - a.n][c], a.n)]],
      i |-> [q \in 1..(a.n + b.n) |-> IF q <= a.n THEN a.i[q] ELSE b.i[q - a.n]],
      g |-> [q \in 1..(a.n + b.n) |-> IF q <= a.n THEN a.g[q] ELSE b.g[q - a.n]] ]

(* words of a followed by words of b *)
Concat(a, b) ==
    LET m == Side(a, b, a.s, Shift(b.f, a.n))
    IN  [m EXCEPT !.e = [q \in 1..(a.n + b.n) |->
            IF q \in Rng(a.f) /\ b.s # 0 THEN Append(m.e[q], b.s + a.n) ELSE m.e[q]]]

RECURSIVE SetToSeq1(_)
SetToSeq1(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq1(S \ {x})

(* mirror images: a fresh start state n+1 with epsilons to the old ends *)
Mirror(a) ==
    [ n |-> a.n + 1, s |-> a.n + 1, f |-> IF a.s = 0 THEN <<>> ELSE <<a.s>>,
      e |-> [q \in 1..(a.n + 1) |-> IF q = a.n + 1 THEN a.f
                ELSE SetToSeq1({ p \in 1..a.n : q \in Rng(a.e[p]) })],
      t |-> [q \in 1..(a.n + 1) |-> IF q = a.n + 1
                THEN [c \in 1..(IF a.n = 0 THEN 0 ELSE Len(a.t[1])) |-> <<>>]
                ELSE [c \in DOMAIN a.t[q] |-> SetToSeq1({ p \in 1..a.n : q \in Rng(a.t[p][c]) })]],
      i |-> [q \in 1..(a.n + 1) |-> <<>>],
      g |-> [q \in 1..(a.n + 1) |-> <<>>] ]

(* only the symbols in keep *)
Restrict(a, keep) ==
    [a EXCEPT !.t = [q \in 1..a.n |-> [c \in DOMAIN a.t[q] |-> IF c \in keep THEN a.t[q][c] ELSE <<>>]]]

(* ---- static properties ---- *)
NoEps(A) == \A q \in States(A) : A.e[q] = <<>>
IsDfa(A) == /\ NoEps(A)
            /\ \A q \in States(A) : \A c \in DOMAIN A.t[q] : Cardinality(Rng(A.t[q][c])) <= 1
IsComplete(A) == \A q \in States(A) : \A c \in DOMAIN A.t[q] : A.t[q][c] # <<>>
FromStart(A) == IF A.s = 0 THEN {} ELSE Reach(Succs(A), {A.s}, {A.s})
Preds(A) == LET sc == Succs(A) IN [q \in States(A) |-> { p \in States(A) : q \in sc[p] }]
ToEnd(A) == Reach(Preds(A), Rng(A.f), Rng(A.f))
AllReachable(A) == FromStart(A) = States(A)
AllLive(A) == ToEnd(A) = States(A)

(* Distinguishable pairs of a DFA, 0 standing for the missing state.        *)
Sig(A, q) == IF q = 0 THEN <<FALSE, {}, {}>>
             ELSE <<q \in Rng(A.f), IF q \in Rng(A.f) THEN Rng(A.i[q]) ELSE {}, Rng(A.g[q])>>
Dst(A, q, c) == IF q = 0 THEN 0 ELSE IF A.t[q][c] = <<>> THEN 0 ELSE A.t[q][c][1]
Syms(A) == IF A.n = 0 THEN {} ELSE DOMAIN A.t[1]
RECURSIVE Refine(_, _)
Refine(A, D) ==
    LET D2 == TLCEval(D \cup { pq \in (0..A.n) \X (0..A.n) :
                    \E c \in Syms(A) : <<Dst(A, pq[1], c), Dst(A, pq[2], c)>> \in D })
    IN  IF D2 = D THEN D ELSE Refine(A, D2)
Disting(A) == Refine(A, TLCEval({ pq \in (0..A.n) \X (0..A.n) : Sig(A, pq[1]) # Sig(A, pq[2]) }))
Minimal(A) == /\ AllReachable(A)
              /\ LET D == TLCEval(Disting(A)) IN \A p, q \in States(A) : p < q => <<p, q>> \in D

(* equal up to nothing at all / up to the numbering of states *)
Same(A, B) ==
    /\ A.n = B.n /\ A.s = B.s /\ Rng(A.f) = Rng(B.f)
    /\ \A q \in States(A) :
        /\ Rng(A.e[q]) = Rng(B.e[q])
        /\ \A c \in DOMAIN A.t[q] : Rng(A.t[q][c]) = Rng(B.t[q][c])
        /\ Rng(A.i[q]) = Rng(B.i[q]) /\ Rng(A.g[q]) = Rng(B.g[q])

(* an id put on all the end states *)
Tagged(A, id) ==
    [A EXCEPT !.i = [q \in States(A) |-> IF q \in Rng(A.f) THEN Append(A.i[q], id) ELSE A.i[q]]]

(* only the states in K, in their order *)
KeepStates(A, K) ==
    LET ren == TLCEval([q \in K |-> Cardinality({ p \in K : p <= q })])
        inv == TLCEval([y \in 1..Cardinality(K) |-> CHOOSE q \in K : ren[q] = y])
        In(seq) == LET ks == SelectSeq(seq, LAMBDA q : q \in K) IN [j \in DOMAIN ks |-> ren[ks[j]]]
    IN  [ n |-> Cardinality(K), s |-> IF A.s \in K THEN ren[A.s] ELSE 0, f |-> In(A.f),
          e |-> [y \in DOMAIN inv |-> In(A.e[inv[y]])],
          t |-> [y \in DOMAIN inv |-> [c \in DOMAIN A.t[inv[y]] |-> In(A.t[inv[y]][c])]],
          i |-> [y \in DOMAIN inv |-> A.i[inv[y]]],
          g |-> [y \in DOMAIN inv |-> A.g[inv[y]]] ]
TrimKeep(A, both) == IF both THEN FromStart(A) \cap ToEnd(A) ELSE FromStart(A)

(* b has a's states, each with edges for the symbols it lacked leading to one
   further state which leads only to itself *)
Completes(A, B) ==
    /\ B.n \in {A.n, A.n + 1} /\ B.s = A.s /\ Rng(B.f) = Rng(A.f)
    /\ \A q \in States(A) :
        /\ B.e[q] = <<>> /\ Rng(B.i[q]) = Rng(A.i[q]) /\ Rng(B.g[q]) = Rng(A.g[q])
        /\ \A c \in DOMAIN A.t[q] : Rng(B.t[q][c]) = IF A.t[q][c] # <<>> THEN Rng(A.t[q][c]) ELSE {A.n + 1}
    /\ B.n = A.n + 1 => /\ \A c \in DOMAIN B.t[B.n] : B.t[B.n][c] = <<B.n>>
                        /\ B.e[B.n] = <<>> /\ B.i[B.n] = <<>> /\ B.g[B.n] = <<>>

(* distance to the nearest end, by growing the set of states within d of one *)
RECURSIVE Within(_, _, _, _)
Within(A, R, d, out) ==     \* out: function so far
    LET sc == Succs(A)
        new == { q \in States(A) \ R : sc[q] \cap R # {} }
    IN  IF new = {} THEN out
        ELSE Within(A, R \cup new, d + 1, TLCEval([q \in States(A) |-> IF q \in new THEN d + 1 ELSE out[q]]))
EndDistance(A) == Within(A, Rng(A.f), 0, [q \in States(A) |-> IF q \in Rng(A.f) THEN 0 ELSE -1])

MapsTo(A, B, p) ==   \* p: injective map of A's states into B's, 0 to 0
    \A q \in States(A) :
        /\ (q \in Rng(A.f)) = (p[q] \in Rng(B.f))
        /\ { p[x] : x \in Rng(A.e[q]) } = Rng(B.e[p[q]])
        /\ \A c \in DOMAIN A.t[q] : { p[x] : x \in Rng(A.t[q][c]) } = Rng(B.t[p[q]][c])
        /\ Rng(A.i[q]) = Rng(B.i[p[q]]) /\ Rng(A.g[q]) = Rng(B.g[p[q]])

(* a signature of each state that any isomorphism keeps, refined by its neighbours' *)
StateSig(A, sc, pr, q) ==
    << q = A.s, q \in Rng(A.f), Rng(A.i[q]), Rng(A.g[q]), Cardinality(Rng(A.e[q])),
       [c \in DOMAIN A.t[q] |-> Cardinality(Rng(A.t[q][c]))], q \in Rng(A.e[q]), Cardinality(sc[q]), Cardinality(pr[q]) >>
Fits(A, B, p, q, r) ==      \* mapping q to r agrees with p, which maps the states before q
    \A x \in 1..q : LET y == IF x = q THEN r ELSE p[x] IN
        /\ (x \in Rng(A.e[q])) = (y \in Rng(B.e[r]))
        /\ (q \in Rng(A.e[x])) = (r \in Rng(B.e[y]))
        /\ \A c \in DOMAIN A.t[q] : /\ (x \in Rng(A.t[q][c])) = (y \in Rng(B.t[r][c]))
                                    /\ (q \in Rng(A.t[x][c])) = (r \in Rng(B.t[y][c]))
RECURSIVE Isos(_, _, _, _, _, _)
Isos(A, B, sa, sb, q, p) ==     \* extend the partial map p (a sequence) state by state
    IF q > A.n THEN MapsTo(A, B, p)
    ELSE \E r \in States(B) : /\ r \notin Rng(p)
                              /\ sa[q] = sb[r]
                              /\ Fits(A, B, p, q, r)
                              /\ Isos(A, B, sa, sb, q + 1, Append(p, r))
(* given the renumbering p *)
IsoBy(A, B, p) == /\ A.n = B.n /\ Len(p) = A.n /\ Rng(p) = States(B)
                  /\ (A.s = 0) = (B.s = 0) /\ (A.s # 0 => p[A.s] = B.s)
                  /\ MapsTo(A, B, p)
Sigs(A) == LET sc == Succs(A) pr == TLCEval(Preds(A)) IN TLCEval([q \in States(A) |-> TLCEval(StateSig(A, sc, pr, q))])
(* colours refined by the neighbours' colours, the same numbering for A and B *)
RECURSIVE Recolour(_, _, _, _, _)
Recolour(A, B, ca, cb, rounds) ==
    LET more(X, sc, pr, cl, q) == << cl[q], { <<c, x, Cardinality({ y \in Rng(X.t[q][c]) : cl[y] = x })>> :
                                            c \in DOMAIN X.t[q], x \in { cl[y] : y \in sc[q] } },
                                 { <<x, Cardinality({ y \in pr[q] : cl[y] = x })>> : x \in { cl[y] : y \in pr[q] } } >>
        num(sa, sb) == TLCEval(Rng(sa) \cup Rng(sb))
        pa == TLCEval(Preds(A)) pb == TLCEval(Preds(B)) xa == Succs(A) xb == Succs(B)
        ma == TLCEval([q \in States(A) |-> TLCEval(more(A, xa, pa, ca, q))])
        mb == TLCEval([q \in States(B) |-> TLCEval(more(B, xb, pb, cb, q))])
        rank == LET RECURSIVE R(_, _)
                    R(S, j) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN (x :> j) @@ R(S \ {x}, j + 1)
                IN TLCEval(R(num(ma, mb), 1))
        na == TLCEval([q \in States(A) |-> rank[ma[q]]]) nb == TLCEval([q \in States(B) |-> rank[mb[q]]])
    IN  IF \E x \in Rng(na) \cup Rng(nb) : Cardinality({ q \in States(A) : na[q] = x }) # Cardinality({ q \in States(B) : nb[q] = x })
        THEN << >>
        ELSE IF rounds = 0 THEN <<na, nb>> ELSE Recolour(A, B, na, nb, rounds - 1)

Iso(A, B) ==
    /\ A.n = B.n /\ (A.s = 0) = (B.s = 0)
    /\ A.n > 0 => LET c == Recolour(A, B, Sigs(A), Sigs(B), 4)
                  IN  c # << >> /\ Isos(A, B, c[1], c[2], 1, <<>>)
=============================================================================
