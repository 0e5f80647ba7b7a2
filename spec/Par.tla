--------------------------------- MODULE Par ---------------------------------
(***************************************************************************)
(* Goroutines that share one runtime.  Each operation of the library       *)
(* consists of sections, in which CUE values are evaluated.  Evaluating    *)
(* may write to what is evaluated the first time (lazy initialization), so *)
(* a section needs the runtime's lock.  Between sections, and before and   *)
(* after, others may run.  An operation gives the same result whatever     *)
(* they do: it depends on nothing but its arguments.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Progs,    \* goroutine -> sequence of names of operations
          Sections, \* name of operation -> sequence of sets of cells that are evaluated
          Cells

VARIABLES pc,       \* goroutine -> number of the operation
          sec,      \* goroutine -> [s: number of section, at: "out", "wait" or "in"]
          holder,   \* the goroutine with the lock, or 0
          init,     \* cell -> has been initialized
          seen      \* goroutine -> sequence of results, each the set of cells that it found ready at the end

vars == << pc, sec, holder, init, seen >>
Gs == DOMAIN Progs

Init ==
  /\ pc = [g \in Gs |-> 1]
  /\ sec = [g \in Gs |-> [s |-> 1, at |-> "out"]]
  /\ holder = 0
  /\ init = [c \in Cells |-> "no"]
  /\ seen = [g \in Gs |-> << >>]

Op(g) == Progs[g][pc[g]]
Busy(g) == pc[g] <= Len(Progs[g])
Cur(g) == Sections[Op(g)][sec[g].s]

\* Begin a section: ask for the lock.
Ask(g) ==
  /\ Busy(g) /\ sec[g].at = "out" /\ sec[g].s <= Len(Sections[Op(g)])
  /\ sec' = [sec EXCEPT ![g].at = "wait"]
  /\ UNCHANGED << pc, holder, init, seen >>

Acquire(g) ==
  /\ Busy(g) /\ sec[g].at = "wait" /\ holder = 0
  /\ holder' = g
  /\ sec' = [sec EXCEPT ![g].at = "in"]
  /\ UNCHANGED << pc, init, seen >>

\* Evaluating takes two steps, between which a cell is half done.
Begin(g, c) ==
  /\ Busy(g) /\ sec[g].at = "in" /\ c \in Cur(g) /\ init[c] = "no"
  /\ init' = [init EXCEPT ![c] = "half"]
  /\ UNCHANGED << pc, sec, holder, seen >>

End(g, c) ==
  /\ Busy(g) /\ sec[g].at = "in" /\ c \in Cur(g) /\ init[c] = "half"
  /\ init' = [init EXCEPT ![c] = "yes"]
  /\ UNCHANGED << pc, sec, holder, seen >>

Release(g) ==
  /\ Busy(g) /\ sec[g].at = "in" /\ \A c \in Cur(g) : init[c] = "yes"
  /\ holder' = 0
  /\ sec' = [sec EXCEPT ![g] = [s |-> @.s + 1, at |-> "out"]]
  /\ UNCHANGED << pc, init, seen >>

Return(g) ==
  /\ Busy(g) /\ sec[g].at = "out" /\ sec[g].s > Len(Sections[Op(g)])
  /\ seen' = [seen EXCEPT ![g] = Append(@, { c \in UNION { Sections[Op(g)][i] : i \in DOMAIN Sections[Op(g)] } : init[c] = "yes" })]
  /\ pc' = [pc EXCEPT ![g] = @ + 1]
  /\ sec' = [sec EXCEPT ![g] = [s |-> 1, at |-> "out"]]
  /\ UNCHANGED << holder, init >>

Done == (\A g \in Gs : ~Busy(g)) /\ UNCHANGED vars
Step(g) == Ask(g) \/ Acquire(g) \/ Release(g) \/ Return(g) \/ \E c \in Cells : Begin(g, c) \/ End(g, c)
Next == Done \/ \E g \in Gs : Step(g)
Spec == Init /\ [][Next]_vars /\ \A g \in Gs : SF_vars(Step(g))

---------------------------------------------------------------------------

\* Nobody else is evaluating where a cell is half done.
Exclusive == /\ Cardinality({ g \in Gs : sec[g].at = "in" }) <= 1
             /\ \A g \in Gs : sec[g].at = "in" => holder = g
             /\ (\E c \in Cells : init[c] = "half") => holder # 0
\* The result is the one the operation has by itself.
Alike == \A g \in Gs : \A i \in DOMAIN seen[g] :
           seen[g][i] = UNION { Sections[Progs[g][i]][k] : k \in DOMAIN Sections[Progs[g][i]] }
\* All goroutines come to an end (and nothing gets stuck: checked as deadlock).
Ends == <>(\A g \in Gs : ~Busy(g))
=============================================================================
