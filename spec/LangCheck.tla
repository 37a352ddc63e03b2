------------------------------ MODULE LangCheck ------------------------------
(***************************************************************************)
(* Decides claims about automata recorded from the implementation, for all  *)
(* words of every length: the state is a case together with the sets of     *)
(* states each automaton of the case may be in after some word, and TLC      *)
(* explores the whole (finite) synchronised product.                         *)
(*                                                                           *)
(* A case is a record  id, k (symbol classes), a (automata), w (claims).      *)
(* An automaton entry with a field "v" is virtual: it is what the            *)
(* specification says an operation's result denotes.                         *)
(***************************************************************************)
EXTENDS Cli, ReLang, Json, IOUtils, Integers

CaseFile == IOEnv.CASES

Has(r, x) == x \in DOMAIN r

(* a pattern text: what it denotes, and (st) whether the specification accepts it *)
Nothing(k) == [n |-> 1, s |-> 1, f |-> <<>>, e |-> << <<>> >>, t |-> << [c \in 1..k |-> <<>>] >>, i |-> << <<>> >>, g |-> << <<>> >>]
Everything(k) == [Nothing(k) EXCEPT !.f = <<1>>, !.t = << [c \in 1..k |-> <<1>>] >>]
RePart(cs, a) ==
    LET fl == Rng(a.fl)
        anch == a.d \in {"like", "glob", "literal", "sql"} \/ "anch" \in fl
        r == TLCEval(Parse(a.text, a.d, fl))
        info == [st |-> r.st, mayrefuse |-> r.st = "ok" /\ MayRefuse(r.n), len |-> Len(a.text),
                 sat |-> r.st # "ok" \/ a.only = 1 \/ Saturated(r.n, cs.cls, cs.rep)]
    IN  (IF r.st = "ok" /\ a.only = 0 THEN RefAut2(r.n, anch \/ Has(a, "pre"), anch \/ Has(a, "suf"), cs.rep) ELSE Nothing(cs.k)) @@ info

(* the subjects a reported literal stands for: s, at the start (cat 1, 3), at the end (2, 3) or    *)
(* anywhere; where the pattern's end anchor allows a newline, s ends with that newline              *)
LitPart(cs, a) ==
    LET fl == Rng(a.fl)
        anch == a.d \in {"like", "glob", "literal", "sql"} \/ "anch" \in fl
        p == TLCEval(Parse(a.text, a.d, fl))
        nl == p.st = "ok" /\ a.cat \in {2, 3} /\ HasEol(p.n)
        core == IF nl THEN SubSeq(a.s, 1, Len(a.s) - 1) ELSE a.s
        parts == (IF a.cat \in {1, 3} THEN << [k |-> "bol"] >> ELSE <<>>)
                 \o [j \in DOMAIN core |-> [k |-> "set", s |-> {core[j]}]]
                 \o (IF a.cat \in {2, 3} THEN << [k |-> IF nl THEN "eol" ELSE "eos"] >> ELSE <<>>)
        r == IF parts = <<>> THEN [k |-> "eps"] ELSE [k |-> "cat", a |-> parts]
    IN  IF p.st # "ok" \/ a.cat = 4 \/ (nl /\ (a.s = <<>> \/ a.s[Len(a.s)] # 10)) THEN Nothing(cs.k) @@ [st |-> "ok"]
        ELSE RefAut(r, anch, cs.rep) @@ [st |-> "ok"]

RECURSIVE OffsOf(_, _, _)
OffsOf(l, j, acc) == IF j > Len(l) THEN acc ELSE OffsOf(l, j + 1, Append(acc, acc[Len(acc)] + l[j] + 1))

(* subjects with a member of a list of strings, by what the anchors ask for, each member's id        *)
StrPart(cs, a) ==
    LET lens == [j \in DOMAIN a.m |-> Len(a.m[j].s)]
        offs == TLCEval(OffsOf(lens, 1, <<1>>))     \* first state of each member, less one
        N == offs[Len(offs)]
        owner == [q \in 2..N |-> CHOOSE j \in DOMAIN a.m : offs[j] < q /\ q <= offs[j + 1]]
        IsEnd(q) == q > 1 /\ q = offs[owner[q] + 1]
    IN  [ n |-> N, s |-> 1,
          f |-> SetToSeq1({ q \in 1..N : IsEnd(q) }),
          e |-> [q \in 1..N |-> IF q = 1 THEN SetToSeq1({ offs[j] + 1 : j \in DOMAIN a.m }) ELSE <<>>],
          t |-> [q \in 1..N |-> [c \in 1..cs.k |->
                    SetToSeq1((IF q = 1 THEN (IF a.pre = 1 THEN {} ELSE {1})
                               ELSE IF IsEnd(q) THEN (IF a.suf = 1 THEN {} ELSE {q})
                               ELSE IF cs.cls[a.m[owner[q]].s[q - offs[owner[q]]] + 1] = c THEN {q + 1} ELSE {}))]],
          i |-> [q \in 1..N |-> IF IsEnd(q) /\ a.m[owner[q]].id >= 0 THEN <<a.m[owner[q]].id>> ELSE <<>>],
          g |-> [q \in 1..N |-> <<>>],
          sat |-> \A j \in DOMAIN a.m : \A x \in Rng(a.m[j].s) : \A b \in Bytes : b = x \/ cs.cls[b + 1] # cs.cls[x + 1] ]

RECURSIVE AutOf(_, _)
AutOf(cs, j) ==
    LET a == cs.a[j]
    IN  CASE ~ Has(a, "v")     -> a
          [] a.v = "concat"    -> Concat(AutOf(cs, a.x), AutOf(cs, a.y))
          [] a.v = "mirror"    -> LET x == AutOf(cs, a.x) IN IF x.n = 0 THEN Nothing(cs.k) ELSE Mirror(x)
          [] a.v = "all"       -> Everything(cs.k)
          [] a.v = "side"      -> Side(AutOf(cs, a.x), AutOf(cs, a.y), 0, AutOf(cs, a.x).f \o Shift(AutOf(cs, a.y).f, AutOf(cs, a.x).n))
          [] a.v = "trim"      -> LET x == AutOf(cs, a.x) IN KeepStates(x, TLCEval(TrimKeep(x, a.both = 1)))
          [] a.v = "from"      -> [AutOf(cs, a.x) EXCEPT !.s = a.q]
          [] a.v = "re"        -> RePart(cs, a)
          [] a.v = "lit"       -> LitPart(cs, a)
          [] a.v = "str"       -> StrPart(cs, a)
          [] a.v = "restrict"  -> Restrict(AutOf(cs, a.x), Rng(a.keep))

(* computed once, kept in TLC's registers *)
ASSUME /\ TLCSet(11, JsonDeserialize(CaseFile))
       /\ TLCSet(12, TLCEval([c \in DOMAIN TLCGet(11) |->
                        TLCEval([j \in DOMAIN TLCGet(11)[c].a |-> TLCEval(AutOf(TLCGet(11)[c], j))])]))
       /\ TLCSet(13, TLCEval([c \in DOMAIN TLCGet(11) |->
                        TLCEval([j \in DOMAIN TLCGet(11)[c].a |-> Tab(TLCGet(12)[c][j], TLCGet(11)[c].k)])]))
Cases == TLCGet(11)
Auts == TLCGet(12)
Tabs == TLCGet(13)

VARIABLES cs, S, H, first, word   \* H: outputs so far, where a case asks; word: hidden by the view
vars == <<cs, S, H, first, word>>
view == <<cs, S, H, first>>

Init == /\ cs \in DOMAIN Cases
        /\ S = [j \in DOMAIN Cases[cs].a |-> Tabs[cs][j].init]
        /\ H = IF Has(Cases[cs], "hist") THEN [j \in DOMAIN S |-> Eag(Tabs[cs][j], S[j])] ELSE <<>>
        /\ first = TRUE
        /\ word = <<>>

Read(c) == /\ c \in 1..Cases[cs].k
           /\ S' = [j \in DOMAIN S |-> Step(Tabs[cs][j], S[j], c)]
           /\ H' = [j \in DOMAIN H |-> H[j] \cup Eag(Tabs[cs][j], S'[j])]
           /\ first' = FALSE
           /\ word' = Append(word, c)
           /\ UNCHANGED cs

Next == \E c \in 1..Cases[cs].k : Read(c)

Spec == Init /\ [][Next]_vars

A_(j) == Acc(Tabs[cs][j], S[j])
I_(j) == Ids(Tabs[cs][j], S[j])
G_(j) == Eag(Tabs[cs][j], S[j])
AA(j) == Auts[cs][j]

(* a claim that depends on patterns holds of those the specification gives a meaning *)
(* ("live": and whose languages are not empty)                                     *)
Applies(w) == /\ ~ Has(w, "if") \/ \A j \in Rng(w["if"]) : AA(j).st = "ok"
              /\ ~ Has(w, "live") \/ \A j \in Rng(w.live) : EmptyAnswer(AA(j)) = 0

(* the state of a DFA after a word of byte classes; 0 when stuck *)
RECURSIVE Walk(_, _, _)
Walk(A, q, w) == IF w = <<>> \/ q = 0 THEN q
                 ELSE LET d == A.t[q][Head(w)] IN Walk(A, IF d = <<>> THEN 0 ELSE d[1], Tail(w))

(* evaluated after every word *)
Dyn(w) ==
    ~ Applies(w) \/
    CASE w.c = "eq"      -> A_(w.x) = A_(w.y)
      [] w.c = "ids"     -> A_(w.x) = A_(w.y) /\ I_(w.x) = I_(w.y)
      [] w.c = "eager"   -> (A_(w.x) = A_(w.y)) /\ G_(w.x) = G_(w.y)
      [] w.c = "union"   -> A_(w.z) = (A_(w.x) \/ A_(w.y))
      [] w.c = "unionids"-> /\ A_(w.z) = (\E x \in Rng(w.x) : A_(x))
                            /\ I_(w.z) = UNION { I_(x) : x \in Rng(w.x) }
      [] w.c = "anyof"   -> A_(w.x) = (\E x \in Rng(w.of) : A_(x))
      [] w.c = "inter"   -> A_(w.z) = (A_(w.x) /\ A_(w.y))
      [] w.c = "minus"   -> A_(w.z) = (A_(w.x) /\ ~ A_(w.y))
      [] w.c = "compl"   -> A_(w.y) = ~ A_(w.x)
      [] w.c = "sub"     -> A_(w.x) => A_(w.y)
      [] w.c = "none"    -> ~ A_(w.x)
      [] w.c = "outputs" -> /\ A_(w.x) = A_(w.y)
                            /\ A_(w.x) => H[w.x] = H[w.y] /\ I_(w.x) = I_(w.y)
      [] w.c = "within"  -> \* m: <<what must be reported, what may be, the id>>
                            /\ A_(w.x) = (I_(w.x) # {})
                            /\ \A j \in DOMAIN w.m : A_(w.m[j][1]) => w.m[j][3] \in I_(w.x)
                            /\ \A i \in I_(w.x) : \E j \in DOMAIN w.m : w.m[j][3] = i /\ A_(w.m[j][2])
      [] w.c = "report"  -> /\ A_(w.x) = (\E j \in DOMAIN w.m : A_(w.m[j][1]))
                            /\ A_(w.x) => H[w.x] \cup I_(w.x) = { w.m[j][2] : j \in { j \in DOMAIN w.m : A_(w.m[j][1]) } }
      [] w.c = "mapids"  -> /\ A_(w.x) = A_(w.y)
                            /\ I_(w.y) = { w.m[m][2] : m \in { m \in DOMAIN w.m : w.m[m][1] \in I_(w.x) } }
      [] OTHER           -> TRUE

(* evaluated once *)
Static(w) ==
    ~ Applies(w) \/
    CASE w.c = "parse"    -> (CASE w.got = "ok"   -> AA(w.x).st # "bad"
                               [] w.got = "unsup" -> AA(w.x).st # "ok" \/ AA(w.x).mayrefuse
                               [] OTHER           -> AA(w.x).st # "ok")
      [] w.c = "readable" -> AA(w.x).st # "bad"
      [] w.c = "pos"      -> 0 <= w.from /\ w.from <= w.to /\ w.to <= AA(w.x).len
      [] w.c \in CliNames  -> CliOk(w, [j \in DOMAIN w.xs |-> AA(w.xs[j])], [j \in DOMAIN w.xs |-> Tabs[cs][w.xs[j]]], Cases[cs].k)
      [] w.c = "refused"  -> \E j \in Rng(w.xs) : AA(j).st # "ok" \/ AA(j).mayrefuse
      [] w.c = "sat"      -> AA(w.x).sat
      [] w.c = "isdfa"    -> IsDfa(AA(w.x))
      [] w.c = "noeps"    -> NoEps(AA(w.x))
      [] w.c = "reach"    -> AllReachable(AA(w.x))
      [] w.c = "live"     -> AllLive(AA(w.x)) \/ (AA(w.x).n <= 1 /\ Rng(AA(w.x).f) = {})
      [] w.c = "minimal"  -> Minimal(AA(w.x))
      [] w.c = "complete" -> IsComplete(AA(w.x))
      [] w.c = "ordered"  -> LET up(q) == \A j \in 2..Len(q) : q[j - 1] < q[j]      \* ids are listed in order, each once
                             IN  \A q \in DOMAIN AA(w.x).i : up(AA(w.x).i[q]) /\ up(AA(w.x).g[q])
      [] w.c = "same"     -> Same(AA(w.x), AA(w.y))
      [] w.c = "iso"      -> IF Has(w, "p") THEN IsoBy(AA(w.x), AA(w.y), w.p) ELSE Iso(AA(w.x), AA(w.y))
      [] w.c = "nstates"  -> AA(w.x).n = w.n
      [] w.c = "size"     -> AA(w.x).n = AA(w.y).n
      [] w.c = "completes" -> Completes(AA(w.x), AA(w.y))
      [] w.c = "removed"  -> w.r = AA(w.x).n - AA(w.y).n
      [] w.c = "enddist"  -> w.d = [q \in DOMAIN w.d |-> EndDistance(AA(w.x))[q]] /\ Len(w.d) = AA(w.x).n
      [] w.c = "pred"     -> PredOk(AA(w.x), w.p, w.o)
      [] w.c = "mode"     -> \A q \in States(AA(w.x)) : ModeOk(AA(w.x), w.z, q, w.o[q])
      [] w.c = "counts"   -> AA(w.x).n = w.n /\ EdgeCount(AA(w.x), w.z) = w.e
      [] w.c = "empty"    -> EmptyAnswer(AA(w.x)) = w.r
      [] w.c = "equal"    -> B2(SameLanguage(AA(w.x), AA(w.y), Cases[cs].k)) = w.r
      [] w.c = "required" -> LET A == AA(w.x)
                                 r == TLCEval(RequiredSyms(A, w.n))
                             IN  IF EmptyAnswer(A) # 0 THEN w.n # <<>> ELSE Rng(w.set) = r
      [] w.c = "trimstart" -> AA(w.y).n = Cardinality(FromStart(AA(w.x)))
      [] w.c = "trimboth" -> AA(w.y).n = Cardinality(FromStart(AA(w.x)) \cap ToEnd(AA(w.x)))
      [] w.c = "idsorted" -> \A q \in States(AA(w.x)) : \A j \in 1..(Len(AA(w.x).i[q]) - 1) :
                                 AA(w.x).i[q][j] < AA(w.x).i[q][j + 1]
      [] w.c = "tagged"   -> Same(Tagged(AA(w.x), w.id), AA(w.y))
      [] w.c = "ambig"    -> \* some text has two ids; the examples told are such texts, with all their ids
                             LET A == AA(w.x)
                             IN  /\ w.r = (\E q \in FromStart(A) \cap Rng(A.f) : Cardinality(Rng(A.i[q])) > 1)
                                 /\ \A t \in Rng(w.told) :
                                        LET q == Walk(A, A.s, t.w)
                                        IN  /\ q # 0
                                            /\ q \in Rng(A.f)
                                            /\ Rng(A.i[q]) = Rng(t.ids)
                                            /\ Cardinality(Rng(t.ids)) > 1
      [] OTHER            -> TRUE

DynNames == {"eq", "ids", "eager", "union", "unionids", "anyof", "inter", "minus", "compl", "sub", "none", "mapids", "outputs", "report", "within"}

Bad == { m \in DOMAIN Cases[cs].w :
            LET w == Cases[cs].w[m]
            IN  IF w.c \in DynNames THEN ~ Dyn(w) ELSE first /\ ~ Static(w) }

(* report and prune: one line for each claim at each state where it fails *)
Report == Bad = {} \/ (PrintT(<<"BAD", Cases[cs].id, Bad, word>>) /\ FALSE)

(* the same as an invariant: TLC's counterexample is then the word *)
Holds == Bad = {}
=============================================================================
