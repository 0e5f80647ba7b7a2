-------------------------------- MODULE MCVer --------------------------------
(***************************************************************************)
(* All short texts as versions, and the order of versions around all the   *)
(* places where the number of digits or the width of integers changes.     *)
(***************************************************************************)
EXTENDS Version, Json, IOUtils, SequencesExt, TLC

Deep == "DEEP" \in DOMAIN IOEnv /\ IOEnv.DEEP = "1"
Alphabet == IF Deep THEN { "0", "1", "9", ".", "-", "x", " " } ELSE { "0", "1", "9", ".", "-" }

RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN { "" } ELSE { c \o s : c \in Alphabet, s \in Texts(n - 1) }

Numbers == { "0", "1", "2", "9", "10", "11", "19", "90", "100", "255", "256", "4294967295" }
           \cup (IF Deep THEN { "99", "101", "65535", "65536", "4294967294", "4294967296", "4294967297", "18446744073709551615" } ELSE {})
Big == { "4294967294", "4294967295", "4294967296", "4294967297", "9999999999", "18446744073709551615", "18446744073709551616",
         "18446744073709551617", "4294967295000", "00", "007", "0", "10" }
Vers == { << a, b >> : a, b \in Numbers }

\* the cases: texts by what they begin with, large numbers, and pairs by their first
Heads == { "" } \cup { c \o d : c, d \in Alphabet }
Cases == { << "text", h >> : h \in Heads } \cup { << "big", a >> : a \in Big } \cup { << "order", << a, b >> >> : a, b \in Numbers }

Strings(c) ==
  IF c[1] = "text"
  THEN IF c[2] = "" THEN { "" } \cup Alphabet
       ELSE UNION { { c[2] \o t : t \in Texts(n) } : n \in 0..(IF Deep THEN 4 ELSE 3) }
  ELSE { c[2] \o "." \o b : b \in Big } \cup { c[2], c[2] \o ".", "." \o c[2], c[2] \o ".0.0", "v" \o c[2] \o ".0" }

Ops(c) ==
  IF c[1] = "order"
  THEN LET s == SetToSeq(Vers) IN [i \in DOMAIN s |-> [e |-> "order", s |-> InText(c[2]), s2 |-> InText(s[i])]]
  ELSE LET s == SetToSeq(Strings(c)) IN [i \in DOMAIN s |-> [e |-> "parse", s |-> s[i]]]

VARIABLES case, pc
MInit == case \in Cases /\ pc = 0
MNext == pc = 0 /\ pc' = 1 /\ UNCHANGED case
MSpec == MInit /\ [][MNext]_<< case, pc >>

\* Whatever is proper means something that prints as it was written, and
\* nothing that is malformed is proper.
TextLaw ==
  case[1] # "order" =>
    \A s \in Strings(case) : Proper(s) => ~Malformed(s) /\ InText(Meaning(s)) = s
OrderLaw == case[1] = "order" => /\ RoundTrip(case[2])
                                 /\ \A w \in Vers : VerLess(case[2], w) \/ VerLess(w, case[2]) \/ w = case[2]
                                 /\ \A w \in Vers : ~(VerLess(case[2], w) /\ VerLess(w, case[2]))

ASSUME TotalOrder({ << a, b >> : a, b \in { "0", "2", "9", "10", "100", "4294967295" } })
ASSUME ndJsonSerialize(IOEnv.OUT, LET s == SetToSeq(Cases) IN [i \in DOMAIN s |-> [id |-> "v" \o ToString(i), ops |-> Ops(s[i])]])
=============================================================================
