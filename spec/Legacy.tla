------------------------------- MODULE Legacy --------------------------------
(***************************************************************************)
(* Lineages that Thema writes itself: new ones, and old ones rewritten.    *)
(*                                                                         *)
(* In the old form, a lineage is [name, join, skip, seqs]: a list of       *)
(* sequences, each [schemas |-> <<type, ...>>, fwd, rev], where version    *)
(* numbers follow from the place of a schema, and fwd and rev are the      *)
(* lenses over the breaking change before the sequence, as sequences of    *)
(* length 0 or 1.  There is no place for lenses within a sequence.         *)
(***************************************************************************)
EXTENDS Translate

Majors(lin) == { Ver(lin, i)[1] : i \in 1..N(lin) }
InMajor(lin, m) == { i \in 1..N(lin) : Ver(lin, i)[1] = m }
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

\* A correct lineage in the old form.
ToLegacy(lin) ==
  LET start(m) == CHOOSE i \in InMajor(lin, m) : Ver(lin, i)[2] = 0
      pick(v, w) == SelectSeq(lin.lenses, LAMBDA x : x.from = v /\ x.to = w) IN
  [ name |-> lin.name, join |-> lin.join, skip |-> lin.skip,
    seqs |-> [k \in 1..Cardinality(Majors(lin)) |->
                LET s == start(k - 1) n == Cardinality(InMajor(lin, k - 1)) IN
                [ schemas |-> [i \in 1..n |-> lin.schemas[s + i - 1].t],
                  fwd |-> IF s = 1 THEN << >> ELSE pick(Ver(lin, s - 1), Ver(lin, s)),
                  rev |-> IF s = 1 THEN << >> ELSE pick(Ver(lin, s), Ver(lin, s - 1)) ]] ]

---------------------------------------------------------------------------

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flatten(Tail(ss))

\* A lens somebody has yet to write.
Todo(v, w) == [from |-> v, to |-> w, todo |-> TRUE]
Done(x) == [from |-> x.from, to |-> x.to, todo |-> FALSE]

\* Versions are counted; the lenses over breaking changes are kept, and where
\* one is needed that the old form does not have, there is a placeholder.
Rewritten(leg) ==
  LET n == Len(leg.seqs)
      len(k) == Len(leg.seqs[k].schemas)
      lensOr(s, v, w) == IF s = << >> THEN << Todo(v, w) >> ELSE << Done(s[1]) >> IN
  [ vers |-> Flatten([k \in 1..n |-> [i \in 1..len(k) |-> << k - 1, i - 1 >>]]),
    types |-> Flatten([k \in 1..n |-> leg.seqs[k].schemas]),
    lens |-> Flatten([k \in 1..n |->
               (IF k = 1 THEN << >>
                ELSE LET p == << k - 2, len(k - 1) - 1 >> q == << k - 1, 0 >> IN
                     lensOr(leg.seqs[k].rev, q, p) \o lensOr(leg.seqs[k].fwd, p, q))
               \o [i \in 1..(len(k) - 1) |-> Todo(<< k - 1, i >>, << k - 1, i - 1 >>)]]) ]

---------------------------------------------------------------------------

\* A lineage with a single schema.
NewLineage(name, T) ==
  [name |-> name, join |-> [none |-> TRUE], schemas |-> << [v |-> << 0, 0 >>, t |-> T] >>, lenses |-> << >>, gl |-> << >>, skip |-> FALSE]
=============================================================================
