-------------------------------- MODULE World --------------------------------
(***************************************************************************)
(* Programs as they come: in a small world - one lineage, a few documents  *)
(* - every sequence of operations up to a length is explored.  For every   *)
(* state that is reached, the shortest way to it followed by everything    *)
(* that can be asked in it is written down for the driver.                 *)
(***************************************************************************)
EXTENDS Run, Ship

VARIABLE hist    \* the operations so far

New == "h" \o ToString(Cardinality(DOMAIN hs) + 1)
MaxNew == IF "DEEP" \in DOMAIN IOEnv /\ IOEnv.DEEP = "1" THEN 5 ELSE 3

\* What can be done to make another instance.
Makers ==
  { [e |-> "any", L |-> "L", d |-> Docs[i], h2 |-> New, in |-> "json"] : i \in DOMAIN Docs }
  \cup { [e |-> "validate", L |-> "L", v |-> v, d |-> Docs[i], h2 |-> New, in |-> "json"] : v \in Vs, i \in DOMAIN Docs }
  \cup { [e |-> "translate", h |-> h, v |-> v, h2 |-> New] : h \in DOMAIN hs, v \in Vs }
  \cup { [e |-> x, h |-> h, h2 |-> New] : x \in { "succ", "pred", "hydrate", "dehydrate" }, h \in DOMAIN hs }

\* What can be asked.
Probes ==
  LET m == SetToSeq(Makers)
      q == SetToSeq({ [e |-> "observe", h |-> h] : h \in DOMAIN hs }
             \cup { [e |-> "reval", L |-> "L", h |-> h, v |-> v] : h \in DOMAIN hs, v \in Vs })
      first == IF DOMAIN hs = {} THEN SetToSeq({ [e |-> "mux", L |-> "L", v |-> v, d |-> Docs[i], k |-> k, in |-> "json"] :
                                                  v \in Vs, i \in DOMAIN Docs, k \in { "untyped", "byte" } })
                                      \o << [e |-> "nav", L |-> "L"] >>
               ELSE << >> IN
  first \o [i \in DOMAIN m |-> [m[i] EXCEPT !.h2 = "p" \o ToString(i)]] \o q \o q

WInit == /\ RInit
         /\ hist = << >>

WNext ==
  /\ \/ /\ lins = << >>
        /\ LET op == [e |-> "bind", L |-> "L", lin |-> WLin] IN Do(op) /\ hist' = Append(hist, op)
     \/ /\ lins # << >>
        /\ Cardinality(DOMAIN hs) < MaxNew
        /\ \E op \in Makers :
             /\ Do(op)
             /\ hs' # hs
             /\ hist' = Append(hist, op)
  /\ UNCHANGED << case, pc >>

WSpec == WInit /\ [][WNext]_<< rvars, hist >>

\* States that differ only in how they came about are the same.
View == << DOMAIN lins, { hs[h] : h \in DOMAIN hs } >>

Probe == Serialize(ToJson([id |-> "w" \o ToString(TLCGet("distinct")), ops |-> hist \o Probes]) \o "\n", IOEnv.OUT,
                   [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>])
Emit == lins = << >> \/ Probe.exitValue = 0
NoCases == { 0 }
NoScript(c) == << >>
=============================================================================
