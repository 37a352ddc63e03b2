----------------------------- MODULE WordCheck -----------------------------
(***************************************************************************)
(* Runs of an automaton over words: what every way of executing it -- the    *)
(* interpreter, the bytecode, generated code -- must answer.  One state per  *)
(* case; a case has one automaton and many words, each with the outcomes     *)
(* recorded for it (the words being sequences of byte classes).              *)
(***************************************************************************)
EXTENDS Aut, Json, IOUtils, SequencesExt

VARIABLE cs

ASSUME TLCSet(11, JsonDeserialize(IOEnv.CASES))
Cases == TLCGet(11)

(* the run: the state reached (0: none), how many symbols were read, and the
   states passed *)
Begin(A) == [q |-> A.s, read |-> 0, path |-> <<A.s>>, stuck |-> FALSE]
Feed(A, r, c) ==
    IF r.stuck THEN r
    ELSE LET d == A.t[r.q][c]
         IN  IF d = <<>> THEN [q |-> 0, read |-> r.read + 1, path |-> r.path, stuck |-> TRUE]
             ELSE [q |-> d[1], read |-> r.read + 1, path |-> Append(r.path, d[1]), stuck |-> FALSE]
Run(A, w) == FoldLeft(LAMBDA r, c : Feed(A, r, c), Begin(A), w)

(* only the acceptance, for long words *)
Move(A, q, c) == IF q = 0 THEN 0 ELSE LET d == A.t[q][c] IN IF d = <<>> THEN 0 ELSE d[1]
End(A, w) == FoldLeft(LAMBDA q, c : Move(A, q, c), A.s, w)

Runnable(A) == A.s # 0 /\ IsDfa(A)

(* the outputs of the states passed, in their order, those of one state in any *)
RECURSIVE Outputs(_, _, _)
Outputs(A, path, out) ==
    IF path = <<>> THEN out = <<>>
    ELSE LET g == Rng(A.g[Head(path)]) n == Cardinality(g)
         IN  /\ Len(out) >= n
             /\ Rng(SubSeq(out, 1, n)) = g
             /\ Outputs(A, Tail(path), SubSeq(out, n + 1, Len(out)))

(* o: <<result, end state, symbols read, reads past the end, outputs>> *)
ExecOk(A, run, o) ==
    IF ~ Runnable(A) THEN o[1] = -1 /\ o[3] = 0 /\ o[5] = <<>>
    ELSE LET r == run
             acc == ~ r.stuck /\ r.q \in Rng(A.f)
         IN  /\ o[1] = IF acc THEN 1 ELSE 0
             /\ acc => o[2] = r.q
             /\ o[3] = r.read
             /\ o[4] = IF r.stuck THEN 0 ELSE 1
             /\ Outputs(A, r.path, o[5])

EntryOk(A, e) ==
    CASE e.c = "exec" -> LET r == IF Runnable(A) THEN Run(A, e.w) ELSE <<>>
                         IN  \A j \in DOMAIN e.o : ExecOk(A, r, e.o[j])
      [] e.c = "long" -> LET r == FoldLeft(LAMBDA x, c : IF x[1] = 0 THEN x ELSE <<Move(A, x[1], c), x[2] + 1>>, <<A.s, 0>>, e.w)
                             f == r[1] \in Rng(A.f)
                         IN  \A j \in DOMAIN e.o : SubSeq(e.o[j], 1, 4) = <<IF f THEN 1 ELSE 0, IF f THEN r[1] ELSE 0, r[2], IF r[1] = 0 THEN 0 ELSE 1>>
      [] e.c = "end"  -> LET q == End(A, e.w)     \* <<result, end state>>
                         IN  \A j \in DOMAIN e.o : e.o[j][1] = (IF q \in Rng(A.f) THEN 1 ELSE 0) /\ (q \in Rng(A.f) => e.o[j][2] = q)
      [] e.c = "acc"  -> LET q == End(A, e.w)     \* 1 or 0
                         IN  \A j \in DOMAIN e.o : e.o[j] = IF q \in Rng(A.f) THEN 1 ELSE 0
      [] e.c = "ids"  -> LET q == End(A, e.w)     \* <<result, ids>>
                         IN  \A j \in DOMAIN e.o : IF q \in Rng(A.f)
                                THEN e.o[j][1] = 1 /\ Rng(e.o[j][2]) = Rng(A.i[q]) /\ Len(e.o[j][2]) = Cardinality(Rng(A.i[q]))
                                ELSE e.o[j][1] = 0
      [] e.c = "ids1" -> LET q == End(A, e.w)     \* <<result, smallest id>>: the one pattern reported
                         IN  \A j \in DOMAIN e.o : IF q \in Rng(A.f)
                                THEN e.o[j][1] = 1 /\ (A.i[q] # <<>> => e.o[j][2] \in Rng(A.i[q]) /\ \A x \in Rng(A.i[q]) : x >= e.o[j][2])
                                ELSE e.o[j][1] = 0

Init == cs \in DOMAIN Cases
Next == FALSE /\ cs' = cs
Bad == { m \in DOMAIN Cases[cs].w : ~ EntryOk(Cases[cs].a, Cases[cs].w[m]) }
Report == Bad = {} \/ (PrintT(<<"BAD", Cases[cs].id, Bad, <<>>>>) /\ FALSE)
=============================================================================
