-------------------------------- MODULE Adt --------------------------------
(***************************************************************************)
(* The containers under src/adt as the mathematical objects they stand for:  *)
(* sets of states, labelled edges as sets of pairs, maps to sets of ids,     *)
(* interned sets, bounded queues, priority queues, bit maps.  A history       *)
(* recorded from the implementation is one behaviour of this machine: each    *)
(* operation moves it and must have answered what the machine answers.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

ASSUME TLCSet(11, JsonDeserialize(IOEnv.CASES))
Cases == TLCGet(11)

Regs == 0..7
Bits == 0..255

VARIABLES cs, at, S, E, IM, NT, Q, PQ, B, T, PA
vars == <<cs, at, S, E, IM, NT, Q, PQ, B, T, PA>>

Init == /\ cs \in DOMAIN Cases /\ at = 1
        /\ S = [r \in Regs |-> {}]              \* sets of states
        /\ E = [r \in Regs |-> {}]              \* sets of <<symbol, state>>
        /\ IM = {}                              \* <<state, id>>
        /\ NT = {}                              \* <<handle, set>>
        /\ Q = [cap |-> 0, q |-> <<>>]
        /\ PQ = [n |-> 0, in |-> {}, out |-> <<>>]      \* in: <<handle, state, cost>>
        /\ B = [r \in 0..3 |-> {}]
        /\ T = {}                               \* <<a, b, c>>, one for each <<a, b>>
        /\ PA = <<>>

Ops == Cases[cs].ops
Op == Ops[at]
k == Op.k
a == Op.a
r == Op.r
Arg(j) == a[j]
SetOf(s) == {s[j] : j \in DOMAIN s}
Ascending(s) == \A j \in 1..(Len(s) - 1) : s[j] < s[j + 1]
Lists(s, X) == Ascending(s) /\ SetOf(s) = X
Truth(b) == IF b THEN <<1>> ELSE <<0>>
(* a renaming given by pairs; what it does not mention stays, -1 drops *)
Moves(x, from) == {j \in DOMAIN a : j >= from /\ (j - from) % 2 = 0 /\ a[j] = x}
NewName(x, from) == LET ms == Moves(x, from) IN IF ms = {} THEN x ELSE a[(CHOOSE j \in ms : \A i \in ms : i <= j) + 1]
Pairs(s) == {<<s[j], s[j + 1]>> : j \in {i \in DOMAIN s : i % 2 = 1}}
Dest(es, sy) == {e[2] : e \in {x \in es : x[1] = sy}}
Syms(es) == {e[1] : e \in es}
To(es, st) == {e[1] : e \in {x \in es : x[2] = st}}
Ranges(from) == UNION {a[j]..a[j + 1] : j \in {i \in DOMAIN a : i >= from /\ (i - from) % 2 = 0}}

(* groups are listed as unique, state, how many, symbols ... *)
RECURSIVE Groups(_)
Groups(s) == IF s = <<>> THEN <<>>
             ELSE <<[u |-> s[1], to |-> s[2], ss |-> SubSeq(s, 4, 3 + s[3])]>> \o Groups(SubSeq(s, 4 + s[3], Len(s)))

PlainGroups(gs, es) ==
    /\ \A g \in SetOf(gs) : g.ss # <<>> /\ Lists(g.ss, To(es, g.to))
    /\ \A i, j \in DOMAIN gs : i # j => gs[i].to # gs[j].to
    /\ {g.to : g \in SetOf(gs)} = {e[2] : e \in es}
(* symbols leading to one state only are told apart from the others *)
Lone(es) == {sy \in Syms(es) : Cardinality(Dest(es, sy)) = 1}
UniqueGroups(gs, es) ==
    LET us == {g \in SetOf(gs) : g.u = 1}
        ns == {g \in SetOf(gs) : g.u = 0}
        part(G, P) == /\ \A g \in G : g.ss # <<>> /\ Lists(g.ss, To(es, g.to) \cap P)
                      /\ {g.to : g \in G} = {e[2] : e \in {x \in es : x[1] \in P}}
        lone == Lone(es)
    IN /\ \A i, j \in DOMAIN gs : i # j => <<gs[i].u, gs[i].to>> # <<gs[j].u, gs[j].to>>
       /\ us \cup ns = SetOf(gs)
       /\ part(us, lone) /\ part(ns, Syms(es) \ lone)

(* what each operation leaves behind *)
S2 == CASE k = "ss.add" -> [S EXCEPT ![Arg(1)] = @ \cup {Arg(2)}]
        [] k = "ss.bulk" -> [S EXCEPT ![Arg(1)] = @ \cup SetOf(Tail(a))]
        [] k = "ss.copy" -> [S EXCEPT ![Arg(1)] = @ \cup S[Arg(2)]]
        [] k = "ss.remove" -> [S EXCEPT ![Arg(1)] = @ \ {Arg(2)}]
        [] k = "ss.rebase" -> [S EXCEPT ![Arg(1)] = {x + Arg(2) : x \in @}]
        [] k = "ss.replace" -> [S EXCEPT ![Arg(1)] = IF Arg(2) \in @ THEN (@ \ {Arg(2)}) \cup {Arg(3)} ELSE @]
        [] k = "ss.compact" -> [S EXCEPT ![Arg(1)] = {NewName(x, 2) : x \in @} \ {-1}]
        [] k = "ss.clear" -> [S EXCEPT ![Arg(1)] = {}]
        [] OTHER -> S
E2 == CASE k = "es.add" -> [E EXCEPT ![Arg(1)] = @ \cup {<<Arg(2), Arg(3)>>}]
        [] k = "es.bulk" -> [E EXCEPT ![Arg(1)] = @ \cup (Ranges(3) \X {Arg(2)})]
        [] k = "es.addset" -> [E EXCEPT ![Arg(1)] = @ \cup ({Arg(2)} \X S[Arg(3)])]
        [] k = "es.copy" -> [E EXCEPT ![Arg(1)] = @ \cup E[Arg(2)]]
        [] k = "es.remove" -> [E EXCEPT ![Arg(1)] = {e \in @ : e[1] # Arg(2)}]
        [] k = "es.rmstate" -> [E EXCEPT ![Arg(1)] = {e \in @ : e[2] # Arg(2)}]
        [] k = "es.compact" -> [E EXCEPT ![Arg(1)] = {<<e[1], NewName(e[2], 2)>> : e \in {x \in @ : NewName(x[2], 2) # -1}}]
        [] k = "es.rebase" -> [E EXCEPT ![Arg(1)] = {<<e[1], e[2] + Arg(2)>> : e \in @}]
        [] k = "es.replace" -> [E EXCEPT ![Arg(1)] = {<<e[1], IF e[2] = Arg(2) THEN Arg(3) ELSE e[2]>> : e \in @}]
        [] k = "es.clear" -> [E EXCEPT ![Arg(1)] = {}]
        [] OTHER -> E
IM2 == CASE k = "im.set" -> IM \cup {<<Arg(1), Arg(2)>>}
         [] k = "im.clear" -> {}
         [] OTHER -> IM
Interned2 == IF k = "is.intern" THEN NT \cup {<<r[2], SetOf(a)>>} ELSE NT
Q2 == CASE k = "q.new" -> [cap |-> Arg(1), q |-> <<>>]
        [] k = "q.push" -> IF Len(Q.q) < Q.cap THEN [Q EXCEPT !.q = Append(@, Arg(1))] ELSE Q
        [] k = "q.pop" -> IF Q.q = <<>> THEN Q ELSE [Q EXCEPT !.q = Tail(@)]
        [] OTHER -> Q
PQ2 == CASE k = "p.push" -> [PQ EXCEPT !.n = @ + 1, !.in = @ \cup {<<PQ.n, Arg(1), Arg(2)>>}]
         [] k = "p.pop" -> IF r = <<>> THEN PQ
                           ELSE [PQ EXCEPT !.in = {e \in @ : e[1] # r[1]}, !.out = <<r[1], r[2]>> \o @]
         [] k = "p.update" -> [PQ EXCEPT !.in = {IF e[1] = r[1] THEN <<e[1], e[2], Arg(2)>> ELSE e : e \in @}]
         [] OTHER -> PQ
B2 == CASE k = "bm.set" -> [B EXCEPT ![Arg(1)] = @ \cup {Arg(2)}]
        [] k = "bm.unset" -> [B EXCEPT ![Arg(1)] = @ \ {Arg(2)}]
        [] k = "bm.clear" -> [B EXCEPT ![Arg(1)] = {}]
        [] k = "bm.invert" -> [B EXCEPT ![Arg(1)] = Bits \ @]
        [] k = "bm.copy" -> [B EXCEPT ![Arg(1)] = B[Arg(2)]]
        [] k = "bm.and" -> [B EXCEPT ![Arg(1)] = @ \cap B[Arg(2)]]
        [] k = "bm.or" -> [B EXCEPT ![Arg(1)] = @ \cup B[Arg(2)]]
        [] OTHER -> B
T2 == IF k = "ts.add" /\ \A t \in T : <<t[1], t[2]>> # <<Arg(1), Arg(2)>> THEN T \cup {<<Arg(1), Arg(2), Arg(3)>>} ELSE T
PA2 == IF k = "pa.push" THEN <<Arg(1), Arg(2)>> \o PA ELSE PA

Evens(s) == [j \in 1..(Len(s) \div 2) |-> s[2 * j]]
Odds(s) == [j \in 1..(Len(s) \div 2) |-> s[2 * j - 1]]

(* what each operation answers *)
Right ==
  CASE k \in {"ss.add", "ss.bulk", "ss.copy", "es.add", "es.bulk", "es.addset", "es.grow", "es.copy", "es.compact", "es.replace", "im.set", "pa.push"} -> r = <<1>>
    [] k \in {"ss.remove", "ss.rebase", "ss.replace", "ss.compact", "ss.clear", "es.remove", "es.rmstate", "es.rebase", "es.clear", "im.clear",
              "bm.set", "bm.unset", "bm.clear", "bm.invert", "bm.copy", "bm.and", "bm.or"} -> TRUE
    [] k = "ss.has" -> r = Truth(Arg(2) \in S[Arg(1)])
    [] k = "ss.count" -> r = <<Cardinality(S[Arg(1)])>>
    [] k = "ss.empty" -> r = Truth(S[Arg(1)] = {})
    [] k = "ss.only" -> IF Cardinality(S[Arg(1)]) = 1 THEN Len(r) = 1 /\ SetOf(r) = S[Arg(1)] ELSE r = <<>>
    [] k = "ss.iter" -> Lists(r, S[Arg(1)])
    [] k = "ss.array" -> IF Cardinality(S[Arg(1)]) > 1 THEN Lists(r, S[Arg(1)]) ELSE r = <<>>
    [] k = "ss.cmp" -> IF S[Arg(1)] = {} \/ S[Arg(2)] = {} THEN r = <<>>
                       ELSE IF S[Arg(1)] = S[Arg(2)] THEN r = <<0, 0>> ELSE r[1] * r[2] = -1
    [] k = "es.find" -> IF Dest(E[Arg(1)], Arg(2)) = {} THEN r = <<>> ELSE Len(r) = 2 /\ <<r[1], r[2]>> \in E[Arg(1)] /\ r[1] = Arg(2)
    [] k = "es.trans" -> IF Dest(E[Arg(1)], Arg(2)) = {} THEN r = <<>> ELSE Len(r) = 1 /\ r[1] \in Dest(E[Arg(1)], Arg(2))
    [] k = "es.has" -> r = Truth(Arg(2) \in Syms(E[Arg(1)]))
    [] k = "es.count" -> r = <<Cardinality(E[Arg(1)])>>
    [] k = "es.empty" -> r = Truth(E[Arg(1)] = {})
    [] k = "es.nondet" -> r = Truth(Lone(E[Arg(1)]) # Syms(E[Arg(1)]))
    [] k = "es.iter" -> Len(r) = 2 * Cardinality(E[Arg(1)]) /\ Pairs(r) = E[Arg(1)]
    [] k = "es.ordered" -> LET X == {e \in E[Arg(1)] : e[1] >= Arg(2)}
                           IN /\ Len(r) = 2 * Cardinality(X) /\ Pairs(r) = X
                              /\ \A j \in 1..(Len(Odds(r)) - 1) : Odds(r)[j] <= Odds(r)[j + 1]
    [] k = "es.groups" -> PlainGroups(Groups(r), E[Arg(1)])
    [] k = "es.unique" -> UniqueGroups(Groups(r), E[Arg(1)])
    [] k = "es.ec" -> LET d == Dest(E[Arg(1)], Arg(2)) IN
                      IF d = {} THEN r = <<>>
                      ELSE /\ r # <<>> /\ r[1] \in d
                           /\ Lists(Tail(r), {e[1] : e \in {x \in E[Arg(1)] : a[x[2] + 3] = a[r[1] + 3]}})
    [] k = "im.count" -> r = <<Cardinality({x \in IM : x[1] = Arg(1)})>>
    [] k = "im.get" -> LET v == {x[2] : x \in {y \in IM : y[1] = Arg(1)}} IN
                       IF Cardinality(v) > Arg(2) THEN r = <<0>> ELSE r[1] = 1 /\ Lists(Tail(r), v)
    [] k = "im.iter" -> Len(r) = 2 * Cardinality(IM) /\ Pairs(r) = IM
    [] k = "im.iterfor" -> LET X == {x \in IM : x[1] = Arg(1)} IN
                           Len(r) = 2 * Cardinality(X) /\ Pairs(r) = X /\ Ascending(Evens(r))
    [] k = "is.intern" -> r[1] = 1 /\ \A p \in NT : (p[1] = r[2]) <=> (p[2] = SetOf(a))
    [] k = "is.get" -> IF NT = {} THEN r = <<-1>> ELSE \E p \in NT : p[1] = r[1] /\ Lists(Tail(r), p[2])
    [] k = "q.new" -> r = Truth(Arg(1) > 0)
    [] k = "q.push" -> r = Truth(Len(Q.q) < Q.cap)
    [] k = "q.pop" -> r = IF Q.q = <<>> THEN <<>> ELSE <<Head(Q.q)>>
    [] k = "p.push" -> r = a
    [] k = "p.pop" -> IF PQ.in = {} THEN r = <<>>
                      ELSE Len(r) = 3 /\ <<r[1], r[2], r[3]>> \in PQ.in /\ \A e \in PQ.in : r[3] <= e[3]
    [] k \in {"p.find", "p.update"} -> LET X == {e[1] : e \in {y \in PQ.in : y[2] = Arg(1)}} IN IF X = {} THEN r = <<-1>> ELSE Len(r) = 1 /\ r[1] \in X
    [] k = "p.done" -> LET X == {j \in 1..(Len(PQ.out) \div 2) : PQ.out[2 * j] = Arg(1)}
                       IN IF X = {} THEN r = <<-1>> ELSE Len(r) = 1 /\ \E j \in X : r[1] = PQ.out[2 * j - 1]
    [] k = "p.all" -> Len(r) = Cardinality(PQ.in) /\ SetOf(r) = {e[1] : e \in PQ.in}
    [] k = "p.moved" -> r = Odds(PQ.out)
    [] k = "bm.get" -> r = Truth(Arg(2) \in B[Arg(1)])
    [] k = "bm.next" -> LET X == {x \in (IF Arg(3) = 1 THEN B[Arg(1)] ELSE Bits \ B[Arg(1)]) : x > Arg(2)}
                        IN r = IF X = {} THEN <<256>> ELSE <<CHOOSE x \in X : \A y \in X : x <= y>>
    [] k = "bm.count" -> r = <<Cardinality(B[Arg(1)])>>
    [] k = "bm.any" -> r = Truth(B[Arg(1)] # {})
    [] k = "bm.words" -> Lists(r, B[Arg(1)])
    (* adding what is there already may answer with either of the equal tuples *)
    [] k = "ts.add" -> \/ r = a
                       \/ \E t \in T : t = r /\ t[1] = Arg(1) /\ t[2] = Arg(2)
    [] k = "ts.get" -> r = LET X == {t \in T : t[1] = Arg(1) /\ t[2] = Arg(2)} IN IF X = {} THEN <<>> ELSE <<(CHOOSE t \in X : TRUE)[3]>>
    (* positions in order of value, equal values in order of position *)
    [] k = "pv" -> LET v == Tail(a) IN
                   /\ Len(r) = Len(v) /\ SetOf(r) = 0..(Len(v) - 1)
                   /\ \A j \in 1..(Len(r) - 1) : \/ v[r[j] + 1] < v[r[j + 1] + 1]
                                                 \/ v[r[j] + 1] = v[r[j + 1] + 1] /\ r[j] < r[j + 1]
    [] k = "pa.list" -> r = PA
    [] OTHER -> FALSE

Next == /\ at <= Len(Ops) /\ Right
        /\ at' = at + 1 /\ cs' = cs
        /\ S' = S2 /\ E' = E2 /\ IM' = IM2 /\ NT' = Interned2 /\ Q' = Q2 /\ PQ' = PQ2 /\ B' = B2 /\ T' = T2 /\ PA' = PA2
Spec == Init /\ [][Next]_vars

(* of the model itself: one handle for each interned set, queues within bounds *)
Sane == /\ Len(Q.q) <= Q.cap
        /\ \A p, q \in NT : (p[1] = q[1]) <=> (p[2] = q[2])
        /\ \A t, u \in T : <<t[1], t[2]>> = <<u[1], u[2]>> => t = u
        /\ Cardinality(PQ.in) + Len(PQ.out) \div 2 = PQ.n

Bad == IF at <= Len(Ops) THEN (IF Right THEN {} ELSE {at}) ELSE IF Sane THEN {} ELSE {0}
Report == Bad = {} \/ (PrintT(<<"BAD", Cases[cs].id, Bad, <<>> >>) /\ FALSE)
=============================================================================
