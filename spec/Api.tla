-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The automaton-building interface as a state machine.  The state is the   *)
(* automaton the calls so far describe; every public call is one action     *)
(* with one exact outcome and one exact return value.                       *)
(*   m.n states 1..n, m.s start (0 none), m.f ends, m.e epsilon pairs,       *)
(*   m.t <<from, to, letter>>, m.i / m.g ids and eager outputs per state.    *)
(* K is the number of letters (byte classes).                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Empty0 == [n |-> 0, s |-> 0, f |-> {}, e |-> {}, t |-> {}, i |-> <<>>, g |-> <<>>]

RECURSIVE Blank(_)
Blank(k) == IF k = 0 THEN <<>> ELSE Append(Blank(k - 1), {})

AddStates(m, k) == [m EXCEPT !.n = @ + k, !.i = @ \o Blank(k), !.g = @ \o Blank(k)]

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

(* keep only the states in K, renumbered by ren (a function on K onto 1..|K|) *)
Renumber(m, K, ren) ==
    LET inv == TLCEval([y \in 1..Cardinality(K) |-> CHOOSE x \in K : ren[x] = y])
    IN  [ n |-> Cardinality(K),
          s |-> IF m.s \in K THEN ren[m.s] ELSE 0,
          f |-> { ren[x] : x \in m.f \cap K },
          e |-> { <<ren[p[1]], ren[p[2]]>> : p \in { p \in m.e : p[1] \in K /\ p[2] \in K } },
          t |-> { <<ren[p[1]], ren[p[2]], p[3]>> : p \in { p \in m.t : p[1] \in K /\ p[2] \in K } },
          i |-> [y \in 1..Cardinality(K) |-> m.i[inv[y]]],
          g |-> [y \in 1..Cardinality(K) |-> m.g[inv[y]]] ]

Compact(m, K) == Renumber(m, K, TLCEval([x \in K |-> Cardinality({ y \in K : y <= x })]))

(* the last state takes the number of the removed one *)
Remove(m, q) ==
    LET K == (1..m.n) \ {q}
    IN  Renumber(m, K, TLCEval([x \in K |-> IF x = m.n THEN q ELSE x]))

Merge2(m, a, b) ==      \* b's edges and marks go to a, then b is removed
    LET r(x) == IF x = b THEN a ELSE x
        m2 == [m EXCEPT !.s = r(@), !.f = { r(x) : x \in @ },
                        !.e = { <<r(p[1]), r(p[2])>> : p \in @ },
                        !.t = { <<r(p[1]), r(p[2]), p[3]>> : p \in @ },
                        !.i = [@ EXCEPT ![a] = @ \cup (IF b \in m.f THEN m.i[b] ELSE {})],
                        !.g = [@ EXCEPT ![a] = @ \cup m.g[b]]]
    IN  IF a = b THEN m ELSE Remove(m2, b)

RECURSIVE Grow(_, _, _)
Grow(m, R, todo) ==
    IF todo = {} THEN R
    ELSE LET nx == TLCEval(({ p[2] : p \in { p \in m.e : p[1] \in todo } }
                            \cup { p[2] : p \in { p \in m.t : p[1] \in todo } }) \ R)
         IN  Grow(m, TLCEval(R \cup nx), nx)
FromStartOf(m) == IF m.s = 0 THEN {} ELSE Grow(m, {m.s}, {m.s})
Flip(m) == [m EXCEPT !.e = { <<p[2], p[1]>> : p \in @ }, !.t = { <<p[2], p[1], p[3]>> : p \in @ }]
LiveOf(m) == Grow(Flip(m), m.f, m.f)
TrimSet(m, both) == IF both THEN FromStartOf(m) \cap LiveOf(m) ELSE FromStartOf(m)

Dup(m, a, b) ==         \* copy the states a..b-1 with the edges among them
    LET off == m.n + 1 - a
        In(x) == x >= a /\ x < b
        m1 == AddStates(m, b - a)
    IN  [m1 EXCEPT !.f = @ \cup { x + off : x \in { x \in m.f : In(x) } },
                   !.e = @ \cup { <<p[1] + off, p[2] + off>> : p \in { p \in m.e : In(p[1]) /\ In(p[2]) } },
                   !.t = @ \cup { <<p[1] + off, p[2] + off, p[3]>> : p \in { p \in m.t : In(p[1]) /\ In(p[2]) } }]

(* the automaton after operation o *)
Apply(o, m, K) ==
    CASE o.op = "new"      -> Empty0
      [] o.op \in {"addstate", "addstatenull"} -> AddStates(m, 1)
      [] o.op = "addstates"-> AddStates(m, o.k)
      [] o.op = "rmstate"  -> Remove(m, o.a)
      [] o.op = "setstart" -> [m EXCEPT !.s = o.a]
      [] o.op = "clearstart" -> [m EXCEPT !.s = 0]
      [] o.op = "setend"   -> IF o.k # 0 THEN [m EXCEPT !.f = @ \cup {o.a}] ELSE [m EXCEPT !.f = @ \ {o.a}]
      [] o.op = "lit"      -> [m EXCEPT !.t = @ \cup {<<o.a, o.b, o.k>>}]
      [] o.op = "any"      -> [m EXCEPT !.t = @ \cup { <<o.a, o.b, c>> : c \in 1..K }]
      [] o.op = "eps"      -> [m EXCEPT !.e = @ \cup {<<o.a, o.b>>}]
      [] o.op = "endid"    -> [m EXCEPT !.i = [@ EXCEPT ![o.a] = @ \cup {o.k}]]
      [] o.op = "setendid" -> [m EXCEPT !.i = [q \in 1..m.n |-> IF q \in m.f THEN @[q] \cup {o.k} ELSE @[q]]]
      [] o.op = "incr"     -> [m EXCEPT !.i = [q \in 1..m.n |-> { x + o.k : x \in @[q] }]]
      [] o.op = "mapids"   -> [m EXCEPT !.i = [q \in 1..m.n |->
                                 { CASE o.a = 0 -> x + o.k [] o.a = 1 -> x \div o.k [] o.a = 2 -> x % o.k
                                     [] OTHER -> o.k - x : x \in @[q] }]]
      [] o.op = "eager"    -> [m EXCEPT !.g = [@ EXCEPT ![o.a] = @ \cup {o.k}]]
      [] o.op = "eagerends"-> [m EXCEPT !.g = [q \in 1..m.n |-> IF q \in m.f THEN @[q] \cup {o.k} ELSE @[q]]]
      [] o.op = "compact"  -> Compact(m, { q \in 1..m.n : o.ks[q] = 1 })
      [] o.op = "trim"     -> Compact(m, TrimSet(m, o.k = 1))
      [] o.op = "mergestates" -> Merge2(m, o.a, o.b)
      [] o.op = "collate"  -> IF Cardinality(m.f) < 2 THEN m
                              ELSE [AddStates(m, 1) EXCEPT !.e = @ \cup { <<q, m.n + 1>> : q \in m.f }]
      [] o.op = "subgraph" -> Dup(m, o.a, o.b)
      [] OTHER             -> m           \* vacuum, clone, move: no visible change

(* what the call returns (state numbers 1-based here); <<>> when nothing is promised *)
Returns(o, m) ==
    CASE o.op = "addstate" -> <<1, m.n + 1>>
      [] o.op = "mergestates" -> <<1, IF o.a = m.n /\ o.a # o.b THEN o.b ELSE o.a>>
      [] o.op = "collate"  -> IF m.f = {} THEN <<0>>
                              ELSE IF Cardinality(m.f) = 1 THEN <<1, CHOOSE q \in m.f : TRUE>> ELSE <<1, m.n + 1>>
      [] o.op = "subgraph" -> <<1, o.k + (m.n + 1 - o.a), m.n + 1>>
      [] o.op = "trim"     -> <<m.n - Cardinality(TrimSet(m, o.k = 1))>>
      [] o.op = "compact"  -> <<1, Cardinality({ q \in 1..m.n : o.ks[q] = 0 })>>
      [] o.op \in {"addstatenull", "addstates", "rmstate", "lit", "any", "eps", "endid", "eager", "eagerends", "mapids"} -> <<1>>
      [] o.op = "setendid" -> IF m.f = {} THEN <<>> ELSE <<1>>
      [] OTHER -> <<>>
=============================================================================
