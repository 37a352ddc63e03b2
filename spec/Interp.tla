------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* Group interpolation: a machine that reads a format one byte at a time.    *)
(* A reference is the escape byte and the digits after it, as many as there   *)
(* are; its value is a number of any size.  Each run is one case recorded     *)
(* from the implementation and is judged where the machine stops.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

ASSUME TLCSet(11, JsonDeserialize(IOEnv.CASES))
Cases == TLCGet(11)

VARIABLES cs, at, mode, ref, digits, text, fault
vars == <<cs, at, mode, ref, digits, text, fault>>

C == Cases[cs]
N == Len(C.fmt)
IsDigit(b) == b \in 48..57

Init == /\ cs \in DOMAIN Cases
        /\ at = 0 /\ mode = "plain" /\ ref = 0 /\ digits = <<>> /\ text = <<>>
        /\ fault = <<>>

(* the value of a run of digits, against the number of groups *)
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 48 THEN Strip(Tail(d)) ELSE d
Value(d) == FoldLeft(LAMBDA v, b : v * 10 + (b - 48), 0, d)
Group(d) == LET s == Strip(d) IN IF Len(s) > 6 THEN 1000000 ELSE Value(s)
Known(d) == Group(d) <= Len(C.groups)
TextOf(d) == IF ~ Known(d) THEN C.ne ELSE IF Group(d) = 0 THEN C.group0 ELSE C.groups[Group(d)]

Here == C.fmt[at + 1]
Fail == fault' = <<ref, ref + 1 + Len(digits)>> /\ UNCHANGED <<cs, at, mode, ref, digits, text>>

Plain == /\ mode = "plain" /\ at < N
         /\ at' = at + 1
         /\ IF Here = C.esc THEN mode' = "escape" /\ ref' = at /\ digits' = <<>> /\ UNCHANGED text
            ELSE text' = Append(text, Here) /\ UNCHANGED <<mode, ref, digits>>
         /\ UNCHANGED <<cs, fault>>

Escape == /\ mode = "escape" /\ at < N
          /\ CASE Here = C.esc   -> /\ text' = Append(text, C.esc) /\ mode' = "plain" /\ at' = at + 1
                                    /\ UNCHANGED <<cs, ref, digits, fault>>
               [] IsDigit(Here) /\ Here # C.esc -> /\ digits' = <<Here>> /\ mode' = "number" /\ at' = at + 1
                                                   /\ UNCHANGED <<cs, ref, text, fault>>
               [] OTHER          -> Fail

Number == /\ mode = "number" /\ at < N /\ IsDigit(Here)
          /\ digits' = Append(digits, Here) /\ at' = at + 1
          /\ UNCHANGED <<cs, mode, ref, text, fault>>

Substitute == /\ mode = "number" /\ (IF at = N THEN TRUE ELSE ~ IsDigit(Here))
              /\ IF Known(digits) \/ C.hasne
                 THEN text' = text \o TextOf(digits) /\ mode' = "plain" /\ UNCHANGED <<cs, at, ref, digits, fault>>
                 ELSE Fail

Trailing == mode = "escape" /\ at = N /\ Fail

Next == fault = <<>> /\ (Plain \/ Escape \/ Number \/ Substitute \/ Trailing)
Spec == Init /\ [][Next]_vars

Done == at = N /\ mode = "plain"
(* room for the text and its terminator *)
Fits == ~ C.hasout \/ Len(text) + 1 <= C.cap
(* what has been written so far would already not fit: either complaint will do *)
Squeezed == C.hasout /\ Len(text) + 1 > C.cap

Judge ==
    CASE C.died -> TRUE
      [] fault # <<>> -> /\ ~ C.ok
                         /\ Squeezed \/ (C.start = fault[1] /\ C.end = fault[2])
                         /\ Squeezed => C.start <= C.end /\ C.end <= N
      [] Done -> IF Fits THEN C.ok /\ (C.hasout => C.out = text)
                 ELSE ~ C.ok /\ C.start <= C.end /\ C.end <= N
      [] OTHER -> TRUE

(* the promise about lengths, of the machine itself *)
NoLonger == (Len(C.group0) = 0 /\ Len(C.ne) = 0 /\ \A j \in DOMAIN C.groups : Len(C.groups[j]) = 0) => Len(text) <= at

Bad == (IF (fault # <<>> \/ Done) /\ ~ Judge THEN {1} ELSE {})
       \cup (IF C.over > 0 THEN {2} ELSE {})
       \cup (IF NoLonger THEN {} ELSE {3})
Report == Bad = {} \/ (PrintT(<<"BAD", C.id, Bad, <<>> >>) /\ FALSE)
=============================================================================
