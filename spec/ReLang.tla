------------------------------- MODULE ReLang -------------------------------
(***************************************************************************)
(* What a pattern (ReSyntax) denotes, twice:                                 *)
(*  - Ends(r, w, i): the positions at which a match of r that begins at       *)
(*    position i of the subject w may end -- the definition;                  *)
(*  - RefAut(r, ...): an automaton (Aut) for the subjects that have a match,   *)
(*    which the recorded automata are compared with.                          *)
(* MODULE ReSelf checks one against the other.                                *)
(***************************************************************************)
EXTENDS Aut, ReSyntax

(* ---- the definition ---- *)
RECURSIVE Ends(_, _, _), EndsCat(_, _, _, _), EndsRep(_, _, _, _, _)
Ends(r, w, i) ==
    CASE r.k \in {"eps", "flag"} -> {i}
      [] r.k = "set" -> IF i < Len(w) /\ w[i + 1] \in r.s THEN {i + 1} ELSE {}
      [] r.k = "bol" -> IF i = 0 THEN {i} ELSE {}
      [] r.k = "eos" -> IF i = Len(w) THEN {i} ELSE {}
      [] r.k = "eol" -> IF i = Len(w) \/ (i = Len(w) - 1 /\ w[i + 1] = 10) THEN {i} ELSE {}
      [] r.k = "cat" -> EndsCat(r.a, 1, w, {i})
      [] r.k = "alt" -> UNION { Ends(r.a[j], w, i) : j \in DOMAIN r.a }
      [] r.k = "rep" -> EndsRep(r, w, {i}, 0, {})
EndsCat(a, j, w, I) == IF j > Len(a) THEN I ELSE EndsCat(a, j + 1, w, UNION { Ends(a[j], w, i) : i \in I })
(* I: where c repetitions may end *)
EndsRep(r, w, I, c, out) ==
    LET now == IF c >= r.m THEN out \cup I ELSE out
        nxt == UNION { Ends(r.x, w, i) : i \in I }
    IN  IF (r.n >= 0 /\ c = r.n) \/ (c >= r.m /\ nxt \subseteq now) \/ c > r.m + Len(w) + 1 THEN now
        ELSE EndsRep(r, w, nxt, c + 1, now)

Matches(r, w, anch) == IF anch THEN Len(w) \in Ends(r, w, 0)
                       ELSE \E i \in 0..Len(w) : Ends(r, w, i) # {}

(* ---- the automaton ---- *)
(* Thompson's construction between states x and y: edges <<from, label, to>>,  *)
(* labels <<"e">>, <<"^">>, <<"$">>, <<"z">>, <<"s", set>>                     *)
Nfa(n, E) == [n |-> n, E |-> E]
RECURSIVE Th(_, _, _, _), ThCat(_, _, _, _, _), ThAlt(_, _, _, _, _)
Copies(r) == IF r.n < 0
             THEN [j \in 1..(r.m + 1) |-> IF j <= r.m THEN r.x ELSE [k |-> "star", x |-> r.x]]
             ELSE [j \in 1..r.n |-> IF j <= r.m THEN r.x ELSE [k |-> "opt", x |-> r.x]]
Th(r, x, y, n) ==
    CASE r.k \in {"eps", "flag"} -> Nfa(n, << <<x, <<"e">>, y>> >>)
      [] r.k = "set" -> Nfa(n, << <<x, <<"s", r.s>>, y>> >>)
      [] r.k = "bol" -> Nfa(n, << <<x, <<"^">>, y>> >>)
      [] r.k = "eol" -> Nfa(n, << <<x, <<"$">>, y>> >>)
      [] r.k = "eos" -> Nfa(n, << <<x, <<"z">>, y>> >>)
      [] r.k = "cat" -> ThCat(r.a, 1, x, y, n)
      [] r.k = "alt" -> ThAlt(r.a, 1, x, y, Nfa(n, <<>>))
      [] r.k = "rep" -> ThCat(Copies(r), 1, x, y, n)
      [] r.k = "opt" -> LET b == Th(r.x, x, n + 1, n + 1) IN
                        Nfa(b.n, b.E \o << <<n + 1, <<"e">>, y>>, <<x, <<"e">>, y>> >>)
      [] r.k = "star" -> LET b == Th(r.x, n + 1, n + 2, n + 2) IN
                         Nfa(b.n, b.E \o << <<x, <<"e">>, n + 1>>, <<n + 2, <<"e">>, n + 1>>,
                                            <<n + 1, <<"e">>, y>> >>)
ThCat(a, j, x, y, n) ==
    IF Len(a) = 0 THEN Nfa(n, << <<x, <<"e">>, y>> >>)
    ELSE IF j = Len(a) THEN Th(a[j], x, y, n)
    ELSE LET b == Th(a[j], x, n + 1, n + 1)
             c == ThCat(a, j + 1, n + 1, y, b.n)
         IN  Nfa(c.n, b.E \o c.E)
ThAlt(a, j, x, y, acc) ==
    IF j > Len(a) THEN acc
    ELSE LET b == Th(a[j], x, y, acc.n) IN ThAlt(a, j + 1, x, y, Nfa(b.n, acc.E \o b.E))

(***************************************************************************)
(* The positions of a subject at which an anchor holds are known to a        *)
(* simulation only by what was read (the start) or is promised about the      *)
(* rest.  A place is <<q, z, p>>: state q of the construction, z = 1 before   *)
(* anything was read, p = 0 nothing promised, 1: only "" or a newline is left, *)
(* 2: nothing is left.  q = 0: <<0,1,0>> before a match, at the start;          *)
(* <<0,0,0>> before a match; <<0,0,1>> matched, whatever follows; <<0,0,2>>     *)
(* matched, nothing may follow.                                                *)
(***************************************************************************)
PlaceEps(out, suf, P) ==
    LET q == P[1] z == P[2] p == P[3] IN
    IF q = 0 THEN IF p = 0 THEN {<<1, z, 0>>} ELSE {}
    ELSE { <<e[3], z, CASE e[2][1] = "$" -> IF p = 0 THEN 1 ELSE p
                        [] e[2][1] = "z" -> 2
                        [] OTHER -> p>> :
             e \in { e \in out[q] : \/ e[2][1] \in {"e", "$", "z"}
                                    \/ e[2][1] = "^" /\ z = 1 } }
         \cup (IF q = 2 /\ p = 0 /\ ~ suf THEN {<<0, 0, 1>>} ELSE {})
PlaceMove(out, pre, P, b) ==      \* b: a byte
    LET q == P[1] p == P[3] IN
    IF q = 0 THEN CASE p = 0 -> IF pre THEN {} ELSE {<<0, 0, 0>>}
                    [] p = 1 -> {<<0, 0, 1>>}
                    [] OTHER -> {}
    ELSE IF p = 2 \/ (p = 1 /\ b # 10) THEN {}
    ELSE { <<e[3], 0, IF p = 1 THEN 2 ELSE 0>> : e \in { e \in out[q] : e[2][1] = "s" /\ b \in e[2][2] } }
         \cup (IF q = 2 /\ p = 1 THEN {<<0, 0, 2>>} ELSE {})
PlaceEnd(suf, P) ==
    \/ P[1] = 0 /\ P[3] > 0
    \/ P[1] = 2 /\ (P[3] > 0 \/ suf)

RECURSIVE Places(_, _, _, _, _, _)
Places(out, pre, suf, reps, todo, seen) ==
    IF todo = {} THEN seen
    ELSE LET new == TLCEval((UNION { PlaceEps(out, suf, P) \cup UNION { PlaceMove(out, pre, P, reps[c]) : c \in DOMAIN reps }
                                     : P \in todo }) \ seen)
         IN  Places(out, pre, suf, reps, new, TLCEval(seen \cup new))

(* reps: a representative byte of every symbol class; pre: a match may only begin at the      *)
(* start of the subject, suf: only end at its end                                              *)
RefAut2(r, pre, suf, reps) ==
    LET b == TLCEval(Th(r, 1, 2, 2))
        out == TLCEval([q \in 1..b.n |-> { b.E[j] : j \in { j \in DOMAIN b.E : b.E[j][1] = q } }])
        s0 == <<0, 1, 0>>
        pl == TLCEval(SetToSeq1(Places(out, pre, suf, reps, {s0}, {s0})))
        num == TLCEval([P \in Rng(pl) |-> CHOOSE j \in DOMAIN pl : pl[j] = P])
    IN  [ n |-> Len(pl), s |-> num[s0],
          f |-> SetToSeq1({ j \in DOMAIN pl : PlaceEnd(suf, pl[j]) }),
          e |-> TLCEval([j \in DOMAIN pl |-> SetToSeq1({ num[P] : P \in PlaceEps(out, suf, pl[j]) })]),
          t |-> TLCEval([j \in DOMAIN pl |-> TLCEval([c \in DOMAIN reps |->
                    SetToSeq1({ num[P] : P \in PlaceMove(out, pre, pl[j], reps[c]) })])]),
          i |-> [j \in DOMAIN pl |-> <<>>],
          g |-> [j \in DOMAIN pl |-> <<>>] ]

RefAut(r, anch, reps) == RefAut2(r, anch, anch, reps)

(* the sets a pattern is made of *)
RECURSIVE Atoms(_)
Atoms(r) == CASE r.k = "set" -> {r.s}
              [] r.k \in {"cat", "alt"} -> UNION { Atoms(r.a[j]) : j \in DOMAIN r.a }
              [] r.k = "rep" -> Atoms(r.x)
              [] OTHER -> {}
RECURSIVE HasEol(_)
HasEol(r) == CASE r.k = "eol" -> TRUE
               [] r.k \in {"cat", "alt"} -> \E j \in DOMAIN r.a : HasEol(r.a[j])
               [] r.k = "rep" -> HasEol(r.x)
               [] OTHER -> FALSE
RECURSIVE HasEndAnchor(_), LoopsOverNullable(_), CanBeEmpty(_)
HasEndAnchor(r) == CASE r.k \in {"eol", "eos"} -> TRUE
               [] r.k \in {"cat", "alt"} -> \E j \in DOMAIN r.a : HasEndAnchor(r.a[j])
               [] r.k = "rep" -> HasEndAnchor(r.x)
               [] OTHER -> FALSE
CanBeEmpty(r) == CASE r.k = "set" -> FALSE
               [] r.k = "cat" -> \A j \in DOMAIN r.a : CanBeEmpty(r.a[j])
               [] r.k = "alt" -> \E j \in DOMAIN r.a : CanBeEmpty(r.a[j])
               [] r.k = "rep" -> r.m = 0 \/ CanBeEmpty(r.x)
               [] OTHER -> TRUE
RECURSIVE NullableAlt(_)
NullableAlt(r) == CASE r.k = "alt" -> \E j \in DOMAIN r.a : CanBeEmpty(r.a[j]) \/ NullableAlt(r.a[j])
               [] r.k = "cat" -> \E j \in DOMAIN r.a : NullableAlt(r.a[j])
               [] r.k = "rep" -> NullableAlt(r.x)
               [] OTHER -> FALSE
LoopsOverNullable(r) == CASE r.k \in {"cat", "alt"} -> \E j \in DOMAIN r.a : LoopsOverNullable(r.a[j])
               [] r.k = "rep" -> (r.n = -1 /\ NullableAlt(r.x)) \/ LoopsOverNullable(r.x)
               [] OTHER -> FALSE

(* what the manual of the implementation lists as unsupported: "unsupported" is an answer only   *)
(* to something after an end anchor, or to an unbounded repetition over an empty alternative      *)
MayRefuse(r) == HasEndAnchor(r) \/ LoopsOverNullable(r)

RECURSIVE HasAnchor(_)
HasAnchor(r) == CASE r.k \in {"eol", "bol", "eos"} -> TRUE
               [] r.k \in {"cat", "alt"} -> \E j \in DOMAIN r.a : HasAnchor(r.a[j])
               [] r.k = "rep" -> HasAnchor(r.x)
               [] OTHER -> FALSE

(* no set tells two bytes of one class apart (cls[byte + 1] is the class of a byte) *)
Saturated(r, cls, reps) ==
    LET ats == Atoms(r) \cup (IF HasEol(r) THEN {{10}} ELSE {}) IN
    \A S \in ats : \A b \in Bytes : (b \in S) = (reps[cls[b + 1]] \in S)
=============================================================================
