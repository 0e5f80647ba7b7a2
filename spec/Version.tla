------------------------------- MODULE Version -------------------------------
(***************************************************************************)
(* Version numbers as text, and their order.  Numbers are kept as numerals *)
(* (strings of digits), because they exceed the integers of TLC.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Digits == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" >>
DigitVal == [c \in { Digits[i] : i \in 1..10 } |-> (CHOOSE i \in 1..10 : Digits[i] = c) - 1]
Ch(s, i) == SubSeq(s, i, i)
IsDigit(c) == c \in DOMAIN DigitVal
IsNumeral(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(Ch(s, i))
LeadingZero(s) == Len(s) > 1 /\ Ch(s, 1) = "0"

RECURSIVE Canon(_)
\* A numeral without leading zeros.
Canon(s) == IF LeadingZero(s) THEN Canon(SubSeq(s, 2, Len(s))) ELSE s

RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
  IF i > Len(a) THEN FALSE
  ELSE IF Ch(a, i) = Ch(b, i) THEN LessFrom(a, b, i + 1)
  ELSE DigitVal[Ch(a, i)] < DigitVal[Ch(b, i)]

\* The order of numbers, on canonical numerals.
NumLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessFrom(a, b, 1)

\* The largest number a version read from text has to be able to have.
MaxNumber == "4294967295"

RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, start, i) ==
  IF i > Len(s) THEN << SubSeq(s, start, Len(s)) >>
  ELSE IF Ch(s, i) = "." THEN << SubSeq(s, start, i - 1) >> \o SplitFrom(s, i + 1, i + 1)
  ELSE SplitFrom(s, start, i + 1)
Parts(s) == SplitFrom(s, 1, 1)

Malformed(s) == LET p == Parts(s) IN Len(p) # 2 \/ ~IsNumeral(p[1]) \/ ~IsNumeral(p[2])

\* What a text means, where it means anything.
Meaning(s) == LET p == Parts(s) IN << Canon(p[1]), Canon(p[2]) >>

\* It is written in the one way versions are written.
Proper(s) ==
  /\ ~Malformed(s)
  /\ \A i \in 1..2 : ~LeadingZero(Parts(s)[i]) /\ ~NumLess(MaxNumber, Parts(s)[i])

InText(v) == v[1] \o "." \o v[2]
VerLess(v, w) == NumLess(v[1], w[1]) \/ (v[1] = w[1] /\ NumLess(v[2], w[2]))

---------------------------------------------------------------------------
(* Laws *)

RoundTrip(v) == Meaning(InText(v)) = v
TotalOrder(S) ==
  /\ \A v, w \in S : (v = w) \/ (VerLess(v, w) /\ ~VerLess(w, v)) \/ (VerLess(w, v) /\ ~VerLess(v, w))
  /\ \A v \in S : ~VerLess(v, v)
  /\ \A u, v, w \in S : VerLess(u, v) /\ VerLess(v, w) => VerLess(u, w)
=============================================================================
