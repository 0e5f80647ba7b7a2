-------------------------------- MODULE Thema --------------------------------
(***************************************************************************)
(* The state machine a Thema program is: lineages get bound, data becomes  *)
(* instances, instances are turned into other instances.  Every operation  *)
(* of the public interface is one action; out is what the caller sees.     *)
(*                                                                         *)
(* Nothing a caller does changes a lineage or an instance that exists      *)
(* (Immutable below): every operation is a function of its arguments.      *)
(***************************************************************************)
EXTENDS Translate

VARIABLES
  lins,   \* id -> lineage that has been bound
  hs,     \* handle -> [L, v, d, soft]: the instances the program holds
  out     \* [e, r, ...] what the last operation returned

vars == << lins, hs, out >>

TypeOK ==
  /\ \A h \in DOMAIN hs : hs[h].L \in DOMAIN lins /\ HasVer(lins[hs[h].L], hs[h].v)

Init == lins = << >> /\ hs = << >> /\ out = [e |-> "init", r |-> "ok"]

Put(f, k, x) == (k :> x) @@ f

NewHandle(h, L, t) == Put(hs, h, [L |-> L, v |-> t.v, d |-> t.d, soft |-> t.soft, n |-> t.n])

---------------------------------------------------------------------------

Bind(id, lin) ==
  LET o == BindOutcome(lin) IN
  /\ id \notin DOMAIN lins
  /\ UNCHANGED hs
  /\ \/ /\ o \in { "ok", "any" }
        /\ lins' = Put(lins, id, lin)
        /\ out' = [e |-> "bind", r |-> "ok", name |-> lin.name, all |-> [i \in 1..N(lin) |-> Ver(lin, i)]]
     \/ /\ o # "ok"
        /\ UNCHANGED lins
        /\ out' = [e |-> "bind", r |-> "fail", cls |-> o]

Validate(L, v, d, h) ==
  /\ L \in DOMAIN lins /\ HasVer(lins[L], v)
  /\ UNCHANGED lins
  /\ IF Accepts(lins[L], v, d)
     THEN /\ hs' = NewHandle(h, L, [v |-> v, d |-> d, soft |-> {}, n |-> 0])
          /\ out' = [e |-> "validate", r |-> "ok", v |-> v, d |-> d]
     ELSE /\ UNCHANGED hs
          /\ out' = [e |-> "validate", r |-> "fail", cls |-> "ErrInvalidData"]

ValidateAny(L, d, h) ==
  /\ L \in DOMAIN lins
  /\ UNCHANGED lins
  /\ LET v == OldestAcceptor(lins[L], d) IN
     IF v # NoVer
     THEN /\ hs' = NewHandle(h, L, [v |-> v, d |-> d, soft |-> {}, n |-> 0])
          /\ out' = [e |-> "any", r |-> "ok", v |-> v, d |-> d]
     ELSE /\ UNCHANGED hs
          /\ out' = [e |-> "any", r |-> "none"]

\* The outcome t of something that maps an instance to another one.
Transformed(e, L, h2, t) ==
  /\ UNCHANGED lins
  /\ \/ /\ t.st \in { "run", "unsure" }
        /\ hs' = NewHandle(h2, L, t)
        /\ out' = [e |-> e, r |-> "ok", v |-> t.v, d |-> t.d, lac |-> t.lac, calls |-> t.calls]
     \/ /\ t.st # "run"
        /\ UNCHANGED hs
        /\ out' = [e |-> e, r |-> "fail", cls |-> "ErrInvalidLens", calls |-> t.calls]
     \/ /\ t.st \in { "lost", "blurred" }
        /\ UNCHANGED hs    \* the model does not follow this instance any further
        /\ out' = [e |-> e, r |-> "ok"]

LinOf(h) == lins[hs[h].L]

DoTranslate(h, to, h2) ==
  /\ h \in DOMAIN hs /\ HasVer(LinOf(h), to)
  /\ Transformed("translate", hs[h].L, h2, Translate(LinOf(h), hs[h], to))

DoSucc(h, h2) ==
  /\ h \in DOMAIN hs /\ hs[h].v # Latest(LinOf(h))
  /\ Transformed("succ", hs[h].L, h2, AsSuccessor(LinOf(h), hs[h]))

DoPred(h, h2) ==
  /\ h \in DOMAIN hs /\ hs[h].v # First(LinOf(h))
  /\ Transformed("pred", hs[h].L, h2, AsPredecessor(LinOf(h), hs[h]))

Hydrated(h)   == [Start(hs[h]) EXCEPT !.d = Hydrate(TypeOf(LinOf(h), hs[h].v), hs[h].d)]
Dehydrated(h) == [Start(hs[h]) EXCEPT !.d = Dehydrate(TypeOf(LinOf(h), hs[h].v), hs[h].d)]

DoHydrate(h, h2)   == h \in DOMAIN hs /\ Transformed("hydrate", hs[h].L, h2, Hydrated(h))
DoDehydrate(h, h2) == h \in DOMAIN hs /\ Transformed("dehydrate", hs[h].L, h2, Dehydrated(h))

\* Hand the data of an instance to another schema of its lineage.
Revalidate(h, v) ==
  /\ h \in DOMAIN hs /\ HasVer(LinOf(h), v)
  /\ out' = IF Accepts(LinOf(h), v, hs[h].d) THEN [e |-> "reval", r |-> "ok", v |-> v, d |-> hs[h].d]
            ELSE [e |-> "reval", r |-> "fail", cls |-> "ErrInvalidData"]
  /\ UNCHANGED << lins, hs >>

\* Look at an instance again: it has not changed.
Observe(h) ==
  /\ h \in DOMAIN hs
  /\ out' = [e |-> "observe", r |-> "ok", v |-> hs[h].v, d |-> hs[h].d]
  /\ UNCHANGED << lins, hs >>

DoMux(L, v, d) ==
  /\ L \in DOMAIN lins /\ HasVer(lins[L], v)
  /\ LET t == Mux(lins[L], v, d) IN
     \/ /\ t.st \in { "run", "unsure" }
        /\ out' = [e |-> "mux", r |-> "ok", v |-> t.v, d |-> t.d, lac |-> t.lac, calls |-> t.calls]
     \/ /\ t.st # "run"
        /\ out' = [e |-> "mux", r |-> "fail", calls |-> t.calls,
                   cls |-> IF t.st = "invalid" THEN "ErrInvalidData" ELSE "ErrInvalidLens"]
     \/ /\ t.st \in { "lost", "blurred" }
        /\ out' = [e |-> "mux", r |-> "ok"]
  /\ UNCHANGED << lins, hs >>

Lookup(L, v) ==
  /\ L \in DOMAIN lins
  /\ out' = IF HasVer(lins[L], v) THEN [e |-> "lookup", r |-> "ok", v |-> v]
            ELSE [e |-> "lookup", r |-> "fail", cls |-> "ErrVersionNotExist"]
  /\ UNCHANGED << lins, hs >>

Around(lin, v) ==
  [v |-> v, succ |-> SuccessorOf(lin, v), pred |-> PredecessorOf(lin, v), lim |-> LatestInMajor(lin, v)]

MajorLatest(lin, m) ==
  LET S == { w \in Versions(lin) : w[1] = m } IN
  IF S = {} THEN NoVer ELSE CHOOSE w \in S : \A x \in S : ~VLess(w, x)

Nav(L) ==
  /\ L \in DOMAIN lins
  /\ LET lin == lins[L] IN
     out' = [e |-> "nav", r |-> "ok", name |-> lin.name, first |-> First(lin), latest |-> Latest(lin),
             per |-> [i \in 1..N(lin) |-> Around(lin, Ver(lin, i))],
             seqs |-> [m \in 1..(Latest(lin)[1] + 2) |-> MajorLatest(lin, m - 1)]]
  /\ UNCHANGED << lins, hs >>

CheckAppend(L, L2) ==
  /\ L \in DOMAIN lins /\ L2 \in DOMAIN lins
  /\ LET a == AppendVerdict(lins[L], lins[L2]) IN
     \/ a # "fail" /\ out' = [e |-> "append", r |-> "ok"]
     \/ a # "ok" /\ out' = [e |-> "append", r |-> "fail"]
  /\ UNCHANGED << lins, hs >>

---------------------------------------------------------------------------
(* What must be true of every state and every step *)

\* An instance is an instance: its data is valid for the schema it claims.
InstancesValid == \A h \in DOMAIN hs : Valid(TypeOf(LinOf(h), hs[h].v), hs[h].d)

\* Only correct lineages are bound.
LineagesCorrect == \A L \in DOMAIN lins : NumberingOK(lins[L])

\* What exists stays as it is.
Immutable ==
  [][ /\ \A L \in DOMAIN lins : L \in DOMAIN lins' => lins'[L] = lins[L]
      /\ \A h \in DOMAIN hs : h \in DOMAIN hs' => hs'[h] = hs[h] ]_vars
=============================================================================
