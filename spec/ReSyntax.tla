------------------------------ MODULE ReSyntax ------------------------------
(***************************************************************************)
(* The concrete syntax of the regular expression dialects: what pattern a   *)
(* text denotes, written from the manuals of each dialect (PCRE's pattern    *)
(* language as far as libre supports it, the native dialect, SQL 2003       *)
(* SIMILAR TO, SQL LIKE, shell globs and literals).                          *)
(*                                                                           *)
(* Parse(text, dialect, flags) gives a record  st, n :                        *)
(*    "ok"      n is the pattern                                              *)
(*    "bad"     the text is malformed, or uses syntax listed as unsupported   *)
(*    "unspec"  the specification does not say (no claim is made)             *)
(*                                                                           *)
(* Texts are sequences of bytes.  Patterns are records with a field k:        *)
(*    eps | set (s: set of bytes) | cat, alt (a: sequence) |                  *)
(*    rep (x, m, n; n = -1 without bound) | bol | eol | eos | fail            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Bytes == 0..255

Eps == [k |-> "eps"]
SetN(S) == [k |-> "set", s |-> S]
Cat(a) == IF Len(a) = 0 THEN Eps ELSE IF Len(a) = 1 THEN a[1] ELSE [k |-> "cat", a |-> a]
Alt(a) == IF Len(a) = 1 THEN a[1] ELSE [k |-> "alt", a |-> a]
RepN(x, m, n) == [k |-> "rep", x |-> x, m |-> m, n |-> n]
Bol == [k |-> "bol"]
Eol == [k |-> "eol"]          \* at the end, or before a newline that ends the subject
Eos == [k |-> "eos"]          \* at the very end

(* ---- sets of bytes ---- *)
Upper == 65..90
Lower == 97..122
Digit == 48..57
Alpha == Upper \cup Lower
Alnum == Alpha \cup Digit
Word  == Alnum \cup {95}
Space == (9..13) \cup {32}
HSpace == {9, 32}
HSpacePcre == {9, 32, 160}
VSpace == 10..13
VSpacePcre == (10..13) \cup {133}
Punct == ((33..126) \ Alnum)
XDigit == Digit \cup (65..70) \cup (97..102)
NotNl == Bytes \ {10}

Swap(S) == { c + 32 : c \in S \cap Upper } \cup { c - 32 : c \in S \cap Lower }
Fold(f, S) == IF f.i THEN S \cup Swap(S) ELSE S

(* bracket names, as bytes *)
Names == << << <<97,108,110,117,109>>, Alnum >>,            \* alnum
            << <<97,108,112,104,97>>, Alpha >>,             \* alpha
            << <<97,115,99,105,105>>, 0..127 >>,            \* ascii
            << <<98,108,97,110,107>>, HSpace >>,            \* blank   (PCRE)
            << <<99,110,116,114,108>>, (0..31) \cup {127} >>,    \* cntrl
            << <<100,105,103,105,116>>, Digit >>,           \* digit
            << <<103,114,97,112,104>>, 33..126 >>,          \* graph
            << <<104,115,112,97,99,101>>, HSpace >>,        \* hspace  (native)
            << <<108,111,119,101,114>>, Lower >>,           \* lower
            << <<112,114,105,110,116>>, 32..126 >>,         \* print
            << <<112,117,110,99,116>>, Punct >>,            \* punct
            << <<115,112,97,99,101>>, Space >>,             \* space
            << <<117,112,112,101,114>>, Upper >>,           \* upper
            << <<118,115,112,97,99,101>>, VSpace >>,        \* vspace  (native)
            << <<119,111,114,100>>, Word >>,                \* word
            << <<120,100,105,103,105,116>>, XDigit >> >>    \* xdigit
SqlNames == << << <<65,76,78,85,77>>, Alnum >>, << <<65,76,80,72,65>>, Alpha >>,
               << <<68,73,71,73,84>>, Digit >>, << <<76,79,87,69,82>>, Lower >>,
               << <<83,80,65,67,69>>, {32} >>, << <<85,80,80,69,82>>, Upper >>,
               << <<87,72,73,84,69,83,80,65,67,69>>, Space >> >>
NameOk(D, j) == CASE D = "pcre"   -> j \notin {8, 14}
                  [] D = "native" -> j # 4

At(T, p) == IF p \in 1..Len(T) THEN T[p] ELSE -1
Has2(T, p, x, y) == At(T, p) = x /\ At(T, p + 1) = y
Match(T, p, s) == p + Len(s) - 1 <= Len(T) /\ SubSeq(T, p, p + Len(s) - 1) = s

(* results *)
Ok(n, p, f) == [st |-> "ok", n |-> n, p |-> p, f |-> f]
Malformed(p) == [st |-> "bad", n |-> Eps, p |-> p, f |-> <<>>]
Unspec(p) == [st |-> "unspec", n |-> Eps, p |-> p, f |-> <<>>]

RECURSIVE NumAt(_, _, _, _, _)
(* digits of the base from p on, at most m of them: <<value, next>>; the value sticks at 100000 *)
DigitVal(c) == IF c \in Digit THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 99
NumAt(T, p, base, m, v) ==
    IF m > 0 /\ At(T, p) >= 0 /\ DigitVal(At(T, p)) < base
    THEN NumAt(T, p + 1, base, m - 1, IF v > 99999 THEN 100000 ELSE v * base + DigitVal(At(T, p)))
    ELSE <<v, p>>

RECURSIVE FindSeq(_, _, _)
FindSeq(T, p, s) == IF p > Len(T) THEN 0 ELSE IF Match(T, p, s) THEN p ELSE FindSeq(T, p + 1, s)

(* the named class [:name:] at p (the opening bracket): <<set, next>>, or <<>> *)
NamedAt(T, D, p) ==
    LET tab == IF D = "sql" THEN SqlNames ELSE Names
        hit == { j \in DOMAIN tab : /\ D = "sql" \/ NameOk(D, j)
                                    /\ Match(T, p, <<91, 58>> \o tab[j][1] \o <<58, 93>>) }
    IN  IF hit = {} THEN <<>> ELSE LET j == CHOOSE x \in hit : TRUE IN <<tab[j][2], p + 4 + Len(tab[j][1])>>

-----------------------------------------------------------------------------
(* Escapes.  An escape is  "set" (a class), "chr" (one byte), or one of the   *)
(* other outcomes; q is the position after it.                                *)
EscR(t, S, q) == [t |-> t, s |-> S, q |-> q]

NumEsc(v, q) == IF v > 255 THEN EscR("bad", {}, q) ELSE EscR("chr", {v}, q)

(* \x.. \x{..} \o{..} \0..  common to PCRE inside and outside classes *)
PcreNum(T, p) ==       \* p at the backslash
    LET c == At(T, p + 1) IN
    CASE c = 120 /\ At(T, p + 2) = 123 ->       \* \x{
            LET r == NumAt(T, p + 3, 16, 100, 0) IN
            IF r[2] = p + 3 THEN EscR("unspec", {}, r[2])
            ELSE IF At(T, r[2]) # 125 THEN EscR("unspec", {}, r[2]) ELSE NumEsc(r[1], r[2] + 1)
      [] c = 120 -> LET r == NumAt(T, p + 2, 16, 2, 0) IN NumEsc(r[1], r[2])
      [] c = 111 -> LET r == NumAt(T, p + 3, 8, 100, 0) IN
            IF At(T, p + 2) # 123 \/ r[2] = p + 3 \/ At(T, r[2]) # 125 THEN EscR("unspec", {}, p + 2)
            ELSE NumEsc(r[1], r[2] + 1)
      [] c = 48 -> LET r == NumAt(T, p + 2, 8, 2, 0) IN NumEsc(r[1], r[2])

Ctl(c) == LET u == IF c \in Lower THEN c - 32 ELSE c IN IF u >= 64 THEN u - 64 ELSE u + 64

TypeEsc(c) ==          \* PCRE's character types
    CASE c = 100 -> Digit          [] c = 68 -> Bytes \ Digit
      [] c = 104 -> HSpacePcre     [] c = 72 -> Bytes \ HSpacePcre
      [] c = 115 -> Space          [] c = 83 -> Bytes \ Space
      [] c = 118 -> VSpacePcre     [] c = 86 -> Bytes \ VSpacePcre
      [] c = 119 -> Word           [] c = 87 -> Bytes \ Word
      [] OTHER   -> {}

PcreEsc(T, p) ==       \* outside classes
    LET c == At(T, p + 1) IN
    CASE c = -1 -> EscR("bad", {}, p + 1)
      [] c \in {92, 94, 36, 63, 42, 43, 46, 124, 40, 41, 123, 91} -> EscR("chr", {c}, p + 2)
      [] c = 102 -> EscR("chr", {12}, p + 2)
      [] c = 110 -> EscR("chr", {10}, p + 2)
      [] c = 114 -> EscR("chr", {13}, p + 2)
      [] c = 116 -> EscR("chr", {9}, p + 2)
      [] c = 97  -> EscR("chr", {7}, p + 2)
      [] c = 101 -> EscR("chr", {27}, p + 2)
      [] c = 99  -> IF At(T, p + 2) \in 32..126 THEN EscR("chr", {Ctl(At(T, p + 2))}, p + 3)
                    ELSE EscR(IF At(T, p + 2) = 10 THEN "unspec" ELSE "bad", {}, p + 2)
      [] c \in {100, 68, 104, 72, 115, 83, 118, 86, 119, 87} -> EscR("set", TypeEsc(c), p + 2)
      [] c = 78  -> IF At(T, p + 2) = 123 THEN EscR("unspec", {}, p + 2) ELSE EscR("set", NotNl, p + 2)
      [] c = 82  -> EscR("eol", VSpacePcre, p + 2)
      [] c \in {120, 111, 48} -> PcreNum(T, p)
      [] c = 65  -> EscR("bol", {}, p + 2)
      [] c = 90  -> EscR("endnl", {}, p + 2)
      [] c = 122 -> EscR("end", {}, p + 2)
      [] c \in 49..57 -> EscR("bad", {}, p + 2)                    \* back references
      [] c \in {67, 88, 71, 103, 107, 75, 98, 66} -> EscR("bad", {}, p + 2)
      [] c \in Alnum \/ c = 10 \/ c >= 128 -> EscR("unspec", {}, p + 2)
      [] OTHER   -> EscR("chr", {c}, p + 2)

PcreClassEsc(T, p) ==
    LET c == At(T, p + 1) IN
    CASE c = -1 -> EscR("bad", {}, p + 1)
      [] c \in {92, 94, 45, 36, 46, 91, 124, 40, 63, 42, 43, 123} -> EscR("chr", {c}, p + 2)
      [] c = 102 -> EscR("chr", {12}, p + 2)
      [] c = 110 -> EscR("chr", {10}, p + 2)
      [] c = 114 -> EscR("chr", {13}, p + 2)
      [] c = 116 -> EscR("chr", {9}, p + 2)
      [] c = 98  -> EscR("chr", {8}, p + 2)
      [] c = 97  -> EscR("chr", {7}, p + 2)
      [] c = 101 -> EscR("chr", {27}, p + 2)
      [] c = 99  -> EscR("unspec", {}, p + 2)                      \* \c in a class: not supported
      [] c \in {100, 68, 104, 72, 115, 83, 118, 86, 119, 87} -> EscR("set", TypeEsc(c), p + 2)
      [] c \in {120, 111, 48} -> PcreNum(T, p)
      [] c \in 49..57 -> EscR("bad", {}, p + 2)
      [] c \in {66, 82, 88} -> EscR("unspec", {}, p + 2)
      [] c \in Alnum \/ c = 10 \/ c >= 128 -> EscR("unspec", {}, p + 2)
      [] OTHER   -> EscR("lit", {c}, p + 2)                        \* no end of a range

NativeEsc(T, p) ==
    LET c == At(T, p + 1) IN
    CASE c \in {92, 94, 36, 63, 42, 43, 46, 124, 40, 41, 123, 91} -> EscR("chr", {c}, p + 2)
      [] c = 102 -> EscR("chr", {12}, p + 2)
      [] c = 110 -> EscR("chr", {10}, p + 2)
      [] c = 114 -> EscR("chr", {13}, p + 2)
      [] c = 116 -> EscR("chr", {9}, p + 2)
      [] c = 118 -> EscR("chr", {11}, p + 2)
      [] c \in 48..55 -> LET r == NumAt(T, p + 1, 8, 3, 0) IN NumEsc(r[1], r[2])
      [] c = 120 -> LET r == NumAt(T, p + 2, 16, 2, 0) IN
                    IF r[2] = p + 4 THEN NumEsc(r[1], r[2]) ELSE EscR("unspec", {}, p + 2)
      [] OTHER   -> EscR("unspec", {}, p + 2)

NativeClassEsc(T, p) ==
    LET c == At(T, p + 1) IN
    CASE c \in {92, 94, 45, 91, 93} -> EscR("chr", {c}, p + 2)
      [] c = 102 -> EscR("chr", {12}, p + 2)
      [] c = 110 -> EscR("chr", {10}, p + 2)
      [] c = 114 -> EscR("chr", {13}, p + 2)
      [] c = 116 -> EscR("chr", {9}, p + 2)
      [] c = 118 -> EscR("chr", {11}, p + 2)
      [] c \in 48..55 -> LET r == NumAt(T, p + 1, 8, 100, 0) IN NumEsc(r[1], r[2])
      [] c = 120 -> LET r == NumAt(T, p + 2, 16, 2, 0) IN
                    IF r[2] = p + 4 THEN NumEsc(r[1], r[2]) ELSE EscR("bad", {}, p + 2)
      [] OTHER   -> EscR("bad", {}, p + 2)

-----------------------------------------------------------------------------
(* Bracketed classes of the PCRE and native dialects: p at an item.           *)
(* Gives t: "ok" with the set s and the position q after the bracket.          *)
ClsItem(T, D, p) ==
    LET c == At(T, p) IN
    CASE c = 92 /\ D = "pcre"   -> PcreClassEsc(T, p)
      [] c = 92 /\ D = "native" -> NativeClassEsc(T, p)
      [] c = 91 /\ At(T, p + 1) \in {58, 46, 61} ->
            LET nm == NamedAt(T, D, p)
            IN  IF nm # <<>> THEN EscR("set", nm[1], nm[2]) ELSE EscR("unspec", {}, p + 1)
      [] OTHER -> EscR("chr", {c}, p + 1)

The(S) == CHOOSE x \in S : TRUE

RECURSIVE ClsItems(_, _, _, _)
ClsItems(T, D, p, S) ==
    LET c == At(T, p) IN
    CASE c = -1 -> EscR("bad", {}, p)
      [] c = 93 -> EscR("ok", S, p + 1)
      [] c = 45 -> IF At(T, p + 1) = 93 THEN EscR("ok", S \cup {45}, p + 2) ELSE EscR("unspec", {}, p)
      [] c = 92 /\ D = "pcre" /\ At(T, p + 1) = 69 -> ClsItems(T, D, p + 2, S)      \* a lone \E
      [] OTHER ->
            LET a == ClsItem(T, D, p) IN
            CASE a.t \notin {"chr", "set", "lit"} -> a
              [] At(T, a.q) = 45 /\ At(T, a.q + 1) # 93 ->       \* a range
                    IF At(T, a.q + 1) = -1 THEN EscR("bad", {}, a.q)
                    ELSE IF a.t # "chr" THEN EscR("unspec", {}, a.q)
                    ELSE IF At(T, a.q + 1) = 45 THEN EscR("unspec", {}, a.q)
                    ELSE LET b == ClsItem(T, D, a.q + 1) IN
                         IF b.t = "bad" THEN b
                         ELSE IF b.t # "chr" THEN EscR("unspec", {}, b.q)
                         ELSE IF The(b.s) < The(a.s) THEN EscR("bad", {}, b.q)
                         ELSE ClsItems(T, D, b.q, S \cup (The(a.s)..The(b.s)))
              [] OTHER -> ClsItems(T, D, a.q, S \cup a.s)

(* a literal  ]  or  -  may come first (and may begin a range) *)
ClsHead(T, D, p) ==
    LET c == At(T, p) IN
    IF c \in {93, 45}
    THEN IF c = 45 /\ At(T, p + 1) = 93 THEN EscR("ok", {45}, p + 2)
         ELSE IF At(T, p + 1) = 45 /\ At(T, p + 2) # 93
         THEN LET b == ClsItem(T, D, p + 2) IN
              IF At(T, p + 2) \in {-1, 45} THEN EscR("unspec", {}, p)
              ELSE IF b.t = "bad" THEN b
              ELSE IF b.t # "chr" THEN EscR("unspec", {}, p)
              ELSE IF The(b.s) < c THEN EscR("bad", {}, p)
              ELSE ClsItems(T, D, b.q, c..The(b.s))
         ELSE ClsItems(T, D, p + 1, {c})
    ELSE ClsItems(T, D, p, {})

Class(T, D, p, f) ==         \* p after the opening bracket
    LET neg == At(T, p) = 94
        r == ClsHead(T, D, IF neg THEN p + 1 ELSE p)
    IN  IF r.t = "ok"
        THEN EscR("ok", IF neg THEN Bytes \ Fold(f, r.s) ELSE Fold(f, r.s), r.q)
        ELSE r

-----------------------------------------------------------------------------
(* SQL classes: [abc], [^abc], [abc^xyz] *)
RECURSIVE SqlItems(_, _, _, _)
SqlItems(T, p, S, n) ==
    LET c == At(T, p) IN
    CASE c = -1 -> EscR("bad", {}, p)
      [] c \in {93, 94} -> IF n = 0 THEN EscR("unspec", {}, p) ELSE EscR("ok", S, p)
      [] c = 45 -> EscR("unspec", {}, p)
      [] c = 91 /\ At(T, p + 1) = 58 ->
            LET nm == NamedAt(T, "sql", p)
            IN  IF nm = <<>> THEN EscR("unspec", {}, p) ELSE SqlItems(T, nm[2], S \cup nm[1], n + 1)
      [] At(T, p + 1) = 45 ->
            LET d == At(T, p + 2) IN
            IF d = -1 THEN EscR("bad", {}, p) ELSE IF d \in {93, 94, 45, 91} THEN EscR("unspec", {}, p)
            ELSE IF d < c THEN EscR("bad", {}, p) ELSE SqlItems(T, p + 3, S \cup (c..d), n + 1)
      [] OTHER -> SqlItems(T, p + 1, S \cup {c}, n + 1)

SqlClass(T, p, f) ==
    LET neg == At(T, p) = 94
        p1 == IF neg THEN p + 1 ELSE p
        dash == At(T, p1) = 45
        r == SqlItems(T, IF dash THEN p1 + 1 ELSE p1, IF dash THEN {45} ELSE {}, 0)
        S == IF neg THEN Bytes \ Fold(f, r.s) ELSE Fold(f, r.s)
    IN  IF r.t # "ok" THEN r
        ELSE IF At(T, r.q) = 93 THEN EscR("ok", S, r.q + 1)
        ELSE LET m == SqlItems(T, r.q + 1, {}, 0) IN        \* the excluded part
             IF m.t # "ok" THEN m
             ELSE IF At(T, m.q) = 93 THEN EscR("ok", S \ Fold(f, m.s), m.q + 1)
             ELSE EscR("unspec", {}, m.q)

-----------------------------------------------------------------------------
(* What may stand between two items without being one.  f.q: inside \Q..\E *)
RECURSIVE Trivia(_, _, _, _)
Trivia(T, D, p, f) ==
    IF D # "pcre" THEN Ok(Eps, p, f)
    ELSE IF f.q THEN IF Has2(T, p, 92, 69) THEN Trivia(T, D, p + 2, [f EXCEPT !.q = FALSE]) ELSE Ok(Eps, p, f)
    ELSE IF Has2(T, p, 92, 69) THEN Trivia(T, D, p + 2, f)
    ELSE IF Has2(T, p, 92, 81) THEN Trivia(T, D, p + 2, [f EXCEPT !.q = TRUE])
    ELSE IF At(T, p) = 40 /\ Has2(T, p + 1, 63, 35)                    \* (?#
    THEN LET e == FindSeq(T, p + 3, <<41>>) IN
         IF e = 0 THEN Malformed(p)
         ELSE IF \E j \in (p + 3)..e : T[j] = 40 THEN Malformed(p) ELSE Trivia(T, D, e + 1, f)
    ELSE IF f.x /\ At(T, p) \in {9, 10, 11, 12, 13, 32} THEN Trivia(T, D, p + 1, f)
    ELSE IF f.x /\ At(T, p) = 35                                        \* to the end of the line
    THEN LET e == FindSeq(T, p, <<10>>)
             last == IF e = 0 THEN Len(T) ELSE e
         IN  IF \E j \in p..last : T[j] = 13 THEN Unspec(p) ELSE Trivia(T, D, last + 1, f)
    ELSE Ok(Eps, p, f)

(* a repetition at p: t = "none", or "rep" with m, n, or an outcome *)
CntR(t, m, n, q) == [t |-> t, m |-> m, n |-> n, q |-> q]
MaxCount == 1000
Count(T, D, p) ==
    LET c == At(T, p) IN
    CASE c = 42 -> CntR("rep", 0, -1, p + 1)
      [] c = 43 -> CntR("rep", 1, -1, p + 1)
      [] c = 63 -> CntR("rep", 0, 1, p + 1)
      [] c = 123 ->
            LET a == NumAt(T, p + 1, 10, 1000, 0)
                two == At(T, a[2]) = 44
                b == IF two THEN NumAt(T, a[2] + 1, 10, 1000, 0) ELSE a
                open == two /\ b[2] = a[2] + 1
                other == CntR(IF D = "native" THEN "bad" ELSE "unspec", 0, 0, p)
            IN  IF a[2] = p + 1 THEN other
                ELSE IF At(T, b[2]) # 125 THEN other
                ELSE IF a[1] > MaxCount \/ b[1] > MaxCount THEN CntR("unspec", 0, 0, p)
                ELSE IF open THEN IF D # "pcre" THEN CntR("unspec", 0, 0, p) ELSE CntR("rep", a[1], -1, b[2] + 1)
                ELSE IF b[1] < a[1] THEN CntR("bad", 0, 0, p)
                ELSE CntR("rep", a[1], b[1], b[2] + 1)
      [] OTHER -> CntR("none", 1, 1, p)

(* inline flags from p, after "(?": at most one letter each side is supported *)
Letter(c) == c \in {105, 115, 120, 110}        \* i s x n
Put(f, c, v) == CASE c = 105 -> [f EXCEPT !.i = v] [] c = 115 -> [f EXCEPT !.s = v]
                  [] c = 120 -> [f EXCEPT !.x = v] [] OTHER -> f
Flags(T, p, f) ==
    LET c == At(T, p)
        p1 == IF Letter(c) THEN p + 1 ELSE p
        f1 == IF Letter(c) THEN Put(f, c, TRUE) ELSE f
        neg == At(T, p1) = 45
        d == At(T, p1 + 1)
        p2 == IF neg THEN IF Letter(d) THEN p1 + 2 ELSE p1 + 1 ELSE p1
        f2 == IF neg /\ Letter(d) THEN Put(f1, d, FALSE) ELSE f1
        end == At(T, p2)
    IN  IF end \in {58, 41} /\ p2 > p /\ ~ (neg /\ ~ Letter(d))
        THEN EscR(IF end = 58 THEN "sub" ELSE "set", f2, p2 + 1)
        ELSE IF end = 58 /\ p2 = p THEN EscR("sub", f, p + 1)
        ELSE IF end = -1 THEN EscR("bad", f, p2)
        ELSE IF c \in {61, 33, 38, 82, 43, 62, 124} \/ c \in Digit THEN EscR("bad", f, p2)
        ELSE IF c = 60 /\ d \in {61, 33} THEN EscR("bad", f, p2)
        ELSE EscR("unspec", f, p2)

(* (?<name> *)
RECURSIVE NameEnd(_, _)
NameEnd(T, p) == IF At(T, p) \in Word THEN NameEnd(T, p + 1) ELSE p

Restore(f, g) == [g EXCEPT !.q = f.q]        \* the flags g, still in or out of quotes as f

RECURSIVE Alts(_, _, _, _, _, _), Items(_, _, _, _, _, _), Item(_, _, _, _, _)

(* alternatives from p; acc: those before.  In a group when depth > 0. *)
Alts(T, D, p, f, depth, acc) ==
    LET r == Items(T, D, p, f, depth, <<>>) IN
    IF r.st # "ok" THEN r
    ELSE IF D = "native" /\ r.p = p /\ (At(T, p) = 124 \/ acc # <<>>) THEN Malformed(p)   \* no empty alternatives
    ELSE IF At(T, r.p) = 124 /\ ~ r.f.q THEN Alts(T, D, r.p + 1, r.f, depth, Append(acc, r.n))
    ELSE Ok(Alt(Append(acc, r.n)), r.p, r.f)

Items(T, D, p, f, depth, acc) ==
    LET w == Trivia(T, D, p, f)
        c == At(T, w.p)
    IN  IF w.st # "ok" THEN w
        ELSE IF c = -1 THEN IF depth > 0 THEN Malformed(w.p) ELSE Ok(Cat(acc), w.p, w.f)
        ELSE IF ~ w.f.q /\ c = 124 THEN Ok(Cat(acc), w.p, w.f)
        ELSE IF ~ w.f.q /\ c = 41 THEN IF depth > 0 THEN Ok(Cat(acc), w.p, w.f) ELSE Malformed(w.p)
        ELSE LET a == Item(T, D, w.p, w.f, depth) IN
             IF a.st # "ok" THEN a
             ELSE LET v == Trivia(T, D, a.p, a.f)
                      k == IF v.st = "ok" /\ ~ v.f.q THEN Count(T, D, v.p) ELSE CntR("none", 1, 1, v.p)
                      v2 == IF k.t = "rep" THEN Trivia(T, D, k.q, v.f) ELSE v
                      g == At(T, v2.p)
                  IN  IF v.st # "ok" THEN v
                      ELSE IF k.t = "bad" THEN Malformed(k.q)
                      ELSE IF k.t = "unspec" THEN Unspec(k.q)
                      ELSE IF k.t = "none" THEN Items(T, D, v.p, v.f, depth, Append(acc, a.n))
                      ELSE IF v2.st # "ok" THEN v2
                      ELSE IF a.n.k \in {"flag", "bol", "eol", "eos"} THEN Unspec(k.q)
                      ELSE IF ~ v2.f.q /\ g \in {63, 43, 42}           \* lazy, possessive, or twice
                      THEN IF D = "native" THEN Unspec(v2.p) ELSE Malformed(v2.p)
                      ELSE IF ~ v2.f.q /\ g = 123 THEN Unspec(v2.p)
                      ELSE Items(T, D, v2.p, v2.f, depth, Append(acc, RepN(a.n, k.m, k.n)))

Item(T, D, p, f, depth) ==
    LET c == At(T, p)
        Lit(S, q) == Ok(SetN(Fold(f, S)), q, f)
        AnyByte == IF f.s \/ D = "sql" THEN Bytes ELSE NotNl
        EndNl == IF f.z THEN Eos ELSE Eol
        FromEsc(e) ==
            CASE e.t \in {"chr", "set", "lit", "ok"} -> IF e.t = "ok" THEN Ok(SetN(e.s), e.q, f) ELSE Lit(e.s, e.q)
              [] e.t = "bol" -> Ok(Bol, e.q, f)
              [] e.t = "endnl" -> Ok(EndNl, e.q, f)
              [] e.t = "end" -> Ok(Eos, e.q, f)
              [] e.t = "eol" -> Ok(Alt(<<Cat(<<SetN({13}), SetN({10})>>), SetN(e.s)>>), e.q, f)
              [] e.t = "bad" -> Malformed(e.q)
              [] OTHER -> Unspec(e.q)
        Group(q, g) ==      \* the inside begins at q with flags g
            LET r == Alts(T, D, q, g, depth + 1, <<>>)
            IN  IF r.st # "ok" THEN r
                ELSE Ok(r.n, r.p + 1, Restore(r.f, f))
    IN  IF f.q THEN Lit({c}, p + 1)
        ELSE IF D = "sql" THEN
            CASE c = 95 -> Ok(SetN(Bytes), p + 1, f)
              [] c = 37 -> Ok(RepN(SetN(Bytes), 0, -1), p + 1, f)
              [] c = 40 -> Group(p + 1, f)
              [] c = 91 -> FromEsc(SqlClass(T, p + 1, f))
              [] c \in {63, 42, 43, 123} -> Malformed(p)
              [] c \in {93, 125} -> Unspec(p)
              [] OTHER -> Lit({c}, p + 1)
        ELSE
            CASE c = 94 -> Ok(Bol, p + 1, f)
              [] c = 36 -> Ok(IF D = "native" THEN Eos ELSE EndNl, p + 1, f)
              [] c = 46 -> Ok(SetN(AnyByte), p + 1, f)
              [] c \in {63, 42, 43} -> Malformed(p)
              [] c = 123 -> IF D = "native" THEN Malformed(p) ELSE Unspec(p)
              [] c = 91 -> FromEsc(Class(T, D, p + 1, f))
              [] c = 92 -> FromEsc(IF D = "pcre" THEN PcreEsc(T, p) ELSE NativeEsc(T, p))
              [] c = 40 /\ D = "pcre" /\ At(T, p + 1) = 42 -> Malformed(p)
              [] c = 40 /\ D = "pcre" /\ At(T, p + 1) = 63 ->
                    LET e == NameEnd(T, p + 3) IN
                    IF At(T, p + 2) = 60 /\ e > p + 3 /\ At(T, p + 3) \notin Digit /\ At(T, e) = 62
                    THEN Malformed(p)              \* named groups are not supported
                    ELSE IF At(T, p + 2) = 80 THEN IF At(T, p + 3) = 62 THEN Malformed(p) ELSE Unspec(p)
                    ELSE LET g == Flags(T, p + 2, f) IN
                         CASE g.t = "sub" -> Group(g.q, g.s)
                           [] g.t = "set" -> Ok([k |-> "flag"], g.q, g.s)
                           [] g.t = "bad" -> Malformed(g.q)
                           [] OTHER -> Unspec(g.q)
              [] c = 40 -> Group(p + 1, f)
              [] OTHER -> Lit({c}, p + 1)

-----------------------------------------------------------------------------
(* flags: i (any case), s (dot matches newline), x (extended), z ($ only at the very end) *)
F0(fl) == [i |-> "i" \in fl, s |-> "s" \in fl, x |-> "x" \in fl, z |-> "anch" \in fl, q |-> FALSE]

Many == RepN(SetN(Bytes), 0, -1)
Simple(T, D, f) == [j \in DOMAIN T |->
    CASE D = "like" /\ T[j] = 95 -> SetN(Bytes)
      [] D = "like" /\ T[j] = 37 -> Many
      [] D = "glob" /\ T[j] = 63 -> SetN(Bytes)
      [] D = "glob" /\ T[j] = 42 -> Many
      [] OTHER -> SetN(Fold(f, {T[j]}))]

Parse(T, D, fl) ==
    LET f == F0(fl) IN
    IF D = "pcre" /\ (\E j \in DOMAIN T : T[j] = 0) THEN Unspec(1)
    ELSE IF D \in {"literal", "like", "glob"} THEN Ok(Cat(Simple(T, D, f)), Len(T) + 1, f)
    ELSE Alts(T, D, 1, f, 0, <<>>)
=============================================================================
