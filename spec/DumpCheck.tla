----------------------------- MODULE DumpCheck -----------------------------
(***************************************************************************)
(* What a structured dump says, against the automaton it was made from.     *)
(* Over the 256 bytes, not classes: where a byte falls is what the dumps'    *)
(* escaping, ranges and groups are about.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

VARIABLE cs

ASSUME TLCSet(12, JsonDeserialize(IOEnv.CASES))
Cases == TLCGet(12)

Byte == 0..255
Rg(s) == { s[j] : j \in DOMAIN s }

(* A plain automaton [n, s, f, e, t, i]: t[q] is a sequence of <<to, lo, hi>> *)
Edges(A, q) == UNION { { <<b, r[1]>> : b \in r[2]..r[3] } : r \in Rg(A.t[q]) }

(* each edge is shown once *)
Shown(A, q) == FoldLeft(LAMBDA x, r : x + r[3] - r[2] + 1, 0, A.t[q])
Once(A, q) == /\ Shown(A, q) = Cardinality(Edges(A, q))
              /\ Len(A.e[q]) = Cardinality(Rg(A.e[q]))

SamePlain(A, B, ids) ==
    /\ A.n = B.n /\ A.s = B.s
    /\ Rg(A.f) = Rg(B.f) /\ Len(B.f) = Cardinality(Rg(B.f))
    /\ \A q \in 1..A.n :
          /\ TLCEval(Edges(A, q)) = TLCEval(Edges(B, q))
          /\ Once(B, q)
          /\ Rg(A.e[q]) = Rg(B.e[q])
          /\ ids => Rg(A.i[q]) = Rg(B.i[q]) /\ Len(B.i[q]) = Cardinality(Rg(A.i[q]))

(* The intermediate form: each state's transitions by a strategy *)
InRanges(rs) == UNION { r[1]..r[2] : r \in Rg(rs) }
Size(rs) == FoldLeft(LAMBDA x, r : x + r[2] - r[1] + 1, 0, rs)
Listed(st) == UNION { { <<b, g.to>> : b \in InRanges(g.r) } : g \in Rg(st.g) }
Domain(st) == UNION { InRanges(g.r) : g \in Rg(st.g) }
Step(st) ==
    CASE st.kind = "none"     -> {}
      [] st.kind = "same"     -> { <<b, st.to>> : b \in Byte }
      [] st.kind = "complete" -> Listed(st)
      [] st.kind = "partial"  -> Listed(st)
      [] st.kind = "dominant" -> Listed(st) \cup { <<b, st.to>> : b \in Byte \ Domain(st) }
      [] st.kind = "error"    -> Listed(st) \cup { <<b, st.to>> : b \in Byte \ (Domain(st) \cup InRanges(st.x)) }
      [] OTHER                -> { <<-1, -1>> }

(* no byte is listed twice, and a complete state lists every byte *)
WellFormed(st) ==
    /\ FoldLeft(LAMBDA x, g : x + Size(g.r), 0, st.g) + Size(st.x) = Cardinality(Domain(st) \cup InRanges(st.x))
    /\ \A g \in Rg(st.g) : g.r # <<>>
    /\ Cardinality({ g.to : g \in Rg(st.g) }) = Len(st.g)
    /\ st.kind = "complete" => Domain(st) = Byte
    /\ st.kind # "error" => st.x = <<>>

Go(A, q, b) == IF q = 0 THEN 0 ELSE LET d == { r \in Rg(A.t[q]) : r[2] <= b /\ b <= r[3] } IN IF d = {} THEN 0 ELSE (CHOOSE r \in d : TRUE)[1]
After(A, w) == FoldLeft(LAMBDA q, b : Go(A, q, b), A.s, w)

SameIr(A, I, examples) ==
    /\ A.n = I.n /\ A.s = I.s
    /\ \A q \in 1..A.n :
          LET st == I.st[q] IN
          /\ st.f <=> q \in Rg(A.f)
          /\ Rg(st.ids) = Rg(A.i[q]) /\ Len(st.ids) = Cardinality(Rg(A.i[q]))
          /\ WellFormed(st)
          /\ TLCEval(Edges(A, q)) = TLCEval(Step(st))
          /\ (examples /\ st.ex # <<>>) => \E w \in Rg(st.ex) : After(A, w) = q

---------------------------------------------------------------------------
(* The textual format, fsm(5): a text is a sequence of items, then a start and
   ends; a state is named, and numbered when its name is first mentioned.
   Reading one item is one transition of the reader's state.              *)
Digit(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87
Number(ds, base) == FoldLeft(LAMBDA x, c : x * base + Digit(c), 0, ds)
Escape == [ x \in {92, 34, 39, 102, 110, 114, 116, 118} |->
              CASE x = 102 -> 12 [] x = 110 -> 10 [] x = 114 -> 13 [] x = 116 -> 9 [] x = 118 -> 11 [] OTHER -> x ]
LabelByte(l) ==     \* <<how it is written, the characters>>
    CASE l[1] = "char" -> l[2][1]
      [] l[1] = "esc"  -> Escape[l[2][1]]
      [] l[1] = "oct"  -> Number(l[2], 8)
      [] l[1] = "hex"  -> Number(l[2], 16)

Empty == [names |-> <<>>, edges |-> {}, eps |-> {}, s |-> 0, f |-> {}, ids |-> {}]
Mention(R, n) == IF n \in Rg(R.names) THEN R ELSE [R EXCEPT !.names = Append(@, n)]
No(R, n) == CHOOSE k \in DOMAIN R.names : R.names[k] = n
Read(R, it) ==
    CASE it.k = "decl"  -> Mention(R, it.a)
      [] it.k = "start" -> LET Q == Mention(R, it.a) IN [Q EXCEPT !.s = No(Q, it.a)]
      [] it.k = "end"   -> LET Q == Mention(R, it.a) q == No(Q, it.a)
                           IN [Q EXCEPT !.f = @ \cup {q}, !.ids = @ \cup { <<q, x>> : x \in Rg(it.ids) }]
      [] it.k = "edge"  -> LET Q == Mention(Mention(R, it.a), it.b) a == No(Q, it.a) b == No(Q, it.b)
                           IN  CASE it.l[1] = "any" -> [Q EXCEPT !.edges = @ \cup { <<a, x, b>> : x \in Byte }]
                                 [] it.l[1] = "eps" -> [Q EXCEPT !.eps = @ \cup { <<a, b>> }]
                                 [] OTHER           -> [Q EXCEPT !.edges = @ \cup { <<a, LabelByte(it.l), b>> }]
Denotes(items, B) ==
    LET R == FoldLeft(Read, Empty, items) IN
    /\ B.n = Len(R.names) /\ B.s = R.s /\ Rg(B.f) = R.f
    /\ R.edges = UNION { { <<q, x[1], x[2]>> : x \in Edges(B, q) } : q \in 1..B.n }
    /\ R.eps = UNION { { <<q, r>> : r \in Rg(B.e[q]) } : q \in 1..B.n }
    /\ R.ids = UNION { { <<q, x>> : x \in Rg(B.i[q]) } : q \in 1..B.n }

Init == cs \in DOMAIN Cases
Next == FALSE /\ cs' = cs
Ok(c) == CASE c.c = "plain" -> SamePlain(c.a, c.b, c.ids)
           [] c.c = "text"  -> Denotes(c.a, c.b)
           [] c.c = "ir"    -> SameIr(c.a, c.b, c.ex)
Report == Ok(Cases[cs]) \/ (PrintT(<<"BAD", Cases[cs].id, {1}, <<>>>>) /\ FALSE)
=============================================================================
