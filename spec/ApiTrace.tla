------------------------------ MODULE ApiTrace ------------------------------
(***************************************************************************)
(* Recorded API histories checked against Api.tla, one action per call:      *)
(* after every call the whole projected automaton and the returned value     *)
(* must be the specification's.                                             *)
(***************************************************************************)
EXTENDS Api, Json, IOUtils, Integers

ASSUME TLCSet(11, JsonDeserialize(IOEnv.CASES))
Cases == TLCGet(11)

VARIABLES cs, l, m, r        \* case, next event, automaton, expected return of the last call
vars == <<cs, l, m, r>>

Rng(q) == { q[j] : j \in DOMAIN q }
ToM(d) == [ n |-> d.n, s |-> d.s, f |-> Rng(d.f),
            e |-> UNION { { <<q, p>> : p \in Rng(d.e[q]) } : q \in 1..d.n },
            t |-> UNION { UNION { { <<q, p, c>> : p \in Rng(d.t[q][c]) } : c \in DOMAIN d.t[q] } : q \in 1..d.n },
            i |-> [q \in 1..d.n |-> Rng(d.i[q])], g |-> [q \in 1..d.n |-> Rng(d.g[q])] ]
Sorted(q) == \A j \in 1..(Len(q) - 1) : q[j] < q[j + 1]

Init == cs \in DOMAIN Cases /\ l = 1 /\ m = Empty0 /\ r = <<>>
Call == /\ l <= Len(Cases[cs].tr)
        /\ LET o == Cases[cs].tr[l] IN m' = Apply(o, m, Cases[cs].k) /\ r' = Returns(o, m)
        /\ l' = l + 1
        /\ UNCHANGED cs
Next == Call

Ev == Cases[cs].tr[l - 1]
Bad == IF l = 1 THEN {}
       ELSE (IF ToM(Ev.d) # m THEN {1} ELSE {})
            \cup (IF r # <<>> /\ r # Ev.r THEN {2} ELSE {})
            \cup (IF \E q \in 1..Ev.d.n : ~ Sorted(Ev.d.i[q]) THEN {3} ELSE {})
            \cup (IF Ev.d.dup # 0 \/ Ev.d.ne # Cardinality(UNION { { <<p[1], p[2], b>> : b \in Rng(Cases[cs].bytes[p[3]]) } : p \in m.t })
                  THEN {4} ELSE {})
Report == Bad = {} \/ (PrintT(<<"BAD", Cases[cs].id, Bad, <<l - 1>>>>) /\ FALSE)
=============================================================================
