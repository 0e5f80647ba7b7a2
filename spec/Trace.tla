-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks a trace recorded from the real code against Thema: every line is *)
(* one operation with its arguments and what was observed.  Each line must *)
(* be an action of Thema with the observed outcome.  A line that is not is *)
(* reported, with the aspects in which it differs, and what it produced is *)
(* forgotten, so that the rest of the trace is checked as well.            *)
(***************************************************************************)
EXTENDS Thema, GoTypes, Version, TsTypes, Cli, Legacy, Json, IOUtils
LD == INSTANCE Load

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

Ev == Log[l]

Has(ev, x) == x \in DOMAIN ev
SameSet(s, S) == SeqToSet(s) = S

\* A path as text.
RECURSIVE Dotted(_)
Dotted(p) == IF p = << >> THEN "" ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o "." \o Dotted(Tail(p))

Within(p, w) == w = "" \/ p = w \/ (Len(p) > Len(w) /\ SubSeq(p, 1, Len(w) + 1) = w \o ".")

Refs(rs) == [i \in DOMAIN rs |-> [p |-> Dotted(rs[i].p), d |-> rs[i].d]]
LacView(ls) == [i \in DOMAIN ls |-> [ty |-> ls[i].ty, msg |-> ls[i].msg, src |-> Refs(ls[i].src), tgt |-> Refs(ls[i].tgt)]]
LacVers(ls) == [i \in DOMAIN ls |-> ls[i].v]
VerText(v) == ToString(v[1]) \o "." \o ToString(v[2])
CallText(cs) == [i \in DOMAIN cs |-> ToString(cs[i][1][1]) \o "." \o ToString(cs[i][1][2]) \o ">" \o
                                     ToString(cs[i][2][1]) \o "." \o ToString(cs[i][2][2])]
If(c, x) == IF c THEN { x } ELSE {}

---------------------------------------------------------------------------
(* The aspects in which an event differs from what Thema allows *)

BadFail(ev, cls) ==
  If(~Has(ev, "cls") \/ (cls # "other" /\ cls \notin SeqToSet(ev.cls)), "class")
  \cup If(Has(ev, "nilres") /\ ~ev.nilres, "nonnil")
  \cup If(Has(ev, "said") /\ ~ev.said, "mute")

Blind(lin, i) == EvaluatorBlind(TypeAt(lin, i - 1), TypeAt(lin, i))

\* Written in a way that need not be supported; if bound, it has to work.
Unusual(lin) == Has(lin, "form") /\ lin.form = "ownname"

BadBind(ev) ==
  LET o == BindOutcome(ev.lin)
      why == BindReason(ev.lin) IN
  CASE ev.r = "panic" -> { "panic" }
    [] ev.r = "ok" -> If(o \notin { "ok", "any" }, "accepted-" \o why)
                      \cup If(~ev.lin.skip /\ \E i \in 2..N(ev.lin) : Ver(ev.lin, i)[2] # 0 /\ Blind(ev.lin, i), "accepted-evaluator")
                      \cup If(ev.name # ev.lin.name, "name")
                      \cup If(ev.all # [i \in 1..N(ev.lin) |-> Ver(ev.lin, i)], "all")
    [] OTHER -> If(o = "ok" /\ ~Unusual(ev.lin), "refused-" \o why)
                \cup (IF Unusual(ev.lin) \/ o \in { "ok", "any" } THEN {} ELSE BadFail(ev, o))

\* A lineage that Thema wrote itself: its versions, and the lenses in it.
BadMade(ev) ==
  IF "made" \notin DOMAIN ev THEN {}
  ELSE LET w == Rewritten(ToLegacy(ev.lin))
           num(v) == << ToString(v[1]), ToString(v[2]) >> IN
       If(ev.made.vers # [i \in DOMAIN w.vers |-> num(w.vers[i])], "made-versions")
       \cup If(ev.made.lens # [i \in DOMAIN w.lens |-> [from |-> num(w.lens[i].from), to |-> num(w.lens[i].to), todo |-> w.lens[i].todo]], "made-lenses")

BadValidate(ev) ==
  LET T == TypeOf(lins[ev.L], ev.v)
      ok == Valid(T, ev.d) IN
  CASE ev.r = "panic" -> { "panic" }
    [] ev.r = "ok" -> If(~ok, "accepted") \cup If(ev.ov # ev.v, "version") \cup If(ev.od # ev.d, "data")
    [] OTHER -> If(ok, "refused")
                \cup (IF ok THEN {} ELSE
                      BadFail(ev, "ErrInvalidData")
                      \cup LET want == { Dotted(p) : p \in Faults(T, ev.d) } IN
                           If(\E i \in DOMAIN ev.fp : ~\E w \in want : Within(ev.fp[i], w), "paths-extra")
                           \cup If(ev.stage = "validate" /\ \E p \in Blame(T, ev.d) :
                                     ~\E i \in DOMAIN ev.fp : Within(ev.fp[i], Dotted(p)), "paths-missed")
                           \cup If(ev.stage = "validate" /\ ev.fp = << >>, "paths-none"))

\* Data of a version, defaults filled in, must be valid for later minor versions.
BackwardDue(lin, h, v) ==
  /\ ~lin.skip /\ v[1] = h.v[1] /\ VLess(h.v, v)
  /\ Hydrate(TypeOf(lin, h.v), h.d) = h.d
BlindBetween(lin, v, w) == \E i \in 2..N(lin) : VLess(v, Ver(lin, i)) /\ ~VLess(w, Ver(lin, i)) /\ Blind(lin, i)

BadReval(ev) ==
  LET h == hs[ev.h]
      ok == Accepts(LinOf(ev.h), ev.v, h.d) IN
  CASE ev.r = "panic" -> { "panic" }
    [] ev.r = "ok" -> If(~ok, "accepted") \cup If(ev.ov # ev.v, "version") \cup If(ev.od # h.d, "data")
    [] OTHER -> IF ok THEN { "refused" }
                ELSE BadFail(ev, "ErrInvalidData")
                     \cup (IF BackwardDue(LinOf(ev.h), h, ev.v)
                           THEN { IF BlindBetween(LinOf(ev.h), h.v, ev.v) THEN "backward-evaluator" ELSE "backward" } ELSE {})

BadAny(ev) ==
  LET v == OldestAcceptor(lins[ev.L], ev.d) IN
  CASE ev.r = "panic" -> { "panic" }
    [] ev.r = "ok" -> If(v = NoVer, "accepted") \cup If(v # NoVer /\ ev.ov # v, "version") \cup If(ev.od # ev.d, "data")
    [] OTHER -> If(v # NoVer, "refused")

BadOut(ev, t) ==
  If(ev.ov # t.v, "version") \cup If(ev.od # t.d, "data")
  \cup If(Has(ev, "lac") /\ ev.lac # LacView(t.lac), "lacunas")
  \cup If(Has(ev, "lacv") /\ Has(ev, "lac") /\ Len(ev.lacv) = Len(ev.lac) /\ ev.lacv # LacVers(t.lac), "lacuna-versions")
  \cup If(Has(ev, "samelin") /\ ~ev.samelin, "lineage")

\* Nothing is known about the result, except that it must be an instance.
BadLost(ev, lin, to) ==
  If(ev.ov # to, "version") \cup If(~Valid(TypeOf(lin, to), ev.od), "invalid")

BadTransform(ev, lin, to, t) ==
  (CASE ev.r = "panic" -> { "panic" }
     [] ev.r = "nil" -> { "nil" }
     [] ev.r = "ok" -> IF t.st = "fail" THEN { "accepted" }
                       ELSE IF t.st \in { "lost", "blurred" } THEN BadLost(ev, lin, to) \cup If(t.st = "blurred", "accepted-evaluator")
                       ELSE BadOut(ev, t)
     [] OTHER -> IF t.st = "run" THEN { "refused" } ELSE BadFail(ev, "ErrInvalidLens"))
  \cup If(Has(ev, "kept") /\ ~ev.kept, "input-changed")
  \cup If(ev.r \in { "ok", "fail" } /\ Has(ev, "calls") /\ ev.calls # CallText(t.calls), "calls")

\* Bytes that cannot be read, or a result that cannot be written.
Flawed(ev) == Has(ev, "flaw") /\ (ev.flaw = "junk" \/ (ev.flaw = "encode" /\ ev.k = "byte"))
BadFlawed(ev, t) ==
  CASE ev.r = "panic" -> { "panic" }
    [] ev.r # "fail" -> { "accepted" }
    [] OTHER -> BadFail(ev, "other")
                \cup If(ev.flaw = "junk" /\ ev.calls # << >>, "calls")
                \cup If(ev.flaw = "encode" /\ t.st = "run" /\ ~ev.noenc, "class")
                \cup If(ev.flaw = "encode" /\ t.st = "run" /\ ev.calls # CallText(t.calls), "calls")
BadMux(ev) ==
  LET t == Mux(lins[ev.L], ev.v, ev.d) IN
  IF Flawed(ev) THEN BadFlawed(ev, t) ELSE
  (CASE ev.r = "panic" -> { "panic" }
     [] ev.r = "nil" -> { "nil" }
     [] ev.r = "ok" -> IF t.st \in { "fail", "invalid" } THEN { "accepted" }
                       ELSE IF t.st \in { "lost", "blurred" } THEN (IF ev.k = "value" THEN {} ELSE BadLost(ev, lins[ev.L], ev.v))
                       ELSE IF ev.k = "value" THEN BadOut(ev, [t EXCEPT !.d = GoView(ev.G, Hydrate(TypeOf(lins[ev.L], ev.v), t.d))])
                       ELSE BadOut(ev, t)
     [] OTHER -> IF t.st = "run" THEN { "refused" }
                 ELSE IF t.st = "unsure" THEN {}
                 ELSE BadFail(ev, IF t.st = "invalid" THEN "ErrInvalidData" ELSE "ErrInvalidLens"))
  \cup If(Has(ev, "kept") /\ ~ev.kept, "input-changed")
  \cup If(ev.r \in { "ok", "fail" } /\ Has(ev, "calls") /\ ev.calls # CallText(t.calls), "calls")

BadNav(ev) ==
  IF ev.r = "panic" THEN { "panic" }
  ELSE LET lin == lins[ev.L] IN
    If(ev.name # lin.name, "name") \cup If(ev.first # First(lin), "first") \cup If(ev.latest # Latest(lin), "latest")
    \cup If(ev.latestver # Latest(lin), "latest")
    \cup If(ev.per # [i \in 1..N(lin) |-> Around(lin, Ver(lin, i))], "neighbours")
    \cup If(ev.seqs # [m \in 1..(Latest(lin)[1] + 2) |-> MajorLatest(lin, m - 1)], "majors")
    \cup If(~ev.same, "identity")
    \* versions far beyond the lineage's are not there, either
    \cup If(ev.far # << >>, "far")

BadLookup(ev) ==
  CASE ev.r = "panic" -> { "panic" }
    [] ev.r = "ok" -> If(~HasVer(lins[ev.L], ev.v), "accepted") \cup If(ev.ov # ev.v, "version")
    [] OTHER -> IF HasVer(lins[ev.L], ev.v) THEN { "refused" } ELSE BadFail(ev, "ErrVersionNotExist")

BlindSchemas(old, new) ==
  /\ N(new) >= N(old)
  /\ \A i \in 1..N(old) : Ver(old, i) = Ver(new, i) /\ (TypeAt(old, i) = TypeAt(new, i)
        \/ EvaluatorBlind(TypeAt(old, i), TypeAt(new, i)) \/ EvaluatorBlind(TypeAt(new, i), TypeAt(old, i)))

BadAppend(ev) ==
  LET a == AppendVerdict(lins[ev.L], lins[ev.L2]) IN
  CASE ev.r = "panic" -> { "panic" }
    [] ev.r = "ok" -> If(a = "fail", IF BlindSchemas(lins[ev.L], lins[ev.L2]) THEN "accepted-evaluator" ELSE "accepted")
    [] OTHER -> If(a = "ok", "refused")

BadExamples(ev) ==
  LET lin == lins[ev.L]
      s == lin.schemas[Idx(lin, ev.v)]
      want == IF Has(s, "ex") THEN DOMAIN s.ex ELSE {} IN
  IF ev.r = "panic" THEN { "panic" }
  ELSE If({ ev.ex[i].n : i \in DOMAIN ev.ex } # want, "names")
       \cup If(\E i \in DOMAIN ev.ex :
                 LET x == ev.ex[i] IN x.n \in want /\ x.d # Hydrate(TypeOf(lin, ev.v), s.ex[x.n]), "data")
       \cup If(~ev.okv, "version")

\* Versions as text.  Leading zeros and numbers beyond what has to be supported
\* may be refused, but must not be taken for another number.
BadParse(ev) ==
  CASE ev.r = "panic" -> { "panic" }
    [] ev.r = "ok" -> IF Malformed(ev.s) THEN { "accepted" }
                      ELSE If(ev.n # Meaning(ev.s), "version") \cup If(ev.str # InText(ev.n), "text") \cup If(~ev.again, "round")
    [] OTHER -> IF Proper(ev.s) THEN { "refused" } ELSE BadFail(ev, "ErrMalformedSyntacticVersion")

BadOrder(ev) ==
  IF ev.r = "panic" THEN { "panic" }
  ELSE LET a == Meaning(ev.s) b == Meaning(ev.s2) IN
       If(ev.lt # VerLess(a, b) \/ ev.gt # VerLess(b, a), "less") \cup If(ev.eq # (a = b), "equal") \cup If(ev.str # InText(a), "text")

BadAssign(ev) ==
  LET a == AssignableTo(TypeOf(lins[ev.L], ev.v), ev.G) IN
  CASE ev.r = "panic" -> { "panic" }
    [] ev.r = "ok" -> If(a = "n", "accepted")
    [] OTHER -> IF a = "y" THEN { "refused" } ELSE BadFail(ev, "other")

\* A schema gets a Go type, G, to which pointers are used.
BadBindType(ev) ==
  LET T == TypeOf(lins[ev.L], ev.v)
      a == AssignableTo(T, ev.G) IN
  CASE ev.r = "panic" -> { "panic" }
    [] ev.r = "ok" -> If(a = "n", "accepted") \cup If(ev.ov # ev.v, "version") \cup If(~ev.again, "shared") \cup If(~ev.conv, "lineage")
                      \cup If(a = "y" /\ ~NewOK(T, ev.G, ev.od), "new")
    [] OTHER -> IF a = "y" THEN { "refused" } ELSE BadFail(ev, "other")

\* The Go value of data: everything is there, defaults included.
BadGoValue(ev, v, d) ==
  If(ev.ov # v, "version") \cup If(~ev.samelin, "lineage") \cup If(~ev.again, "shared")
  \cup If(AssignableTo(TypeOf(lins[ev.L], v), ev.G) = "y" /\ ev.od # GoView(ev.G, Hydrate(TypeOf(lins[ev.L], v), d)), "data")

BadValue(ev) ==
  LET h == hs[ev.h]
      its == h.L = ev.L /\ h.v = ev.v   \* an instance of that very schema
  IN
  (CASE ev.r = "panic" -> { "panic" }
     [] ev.r = "ok" -> IF ~its THEN { "accepted" } ELSE BadGoValue(ev, h.v, h.d)
     [] OTHER -> IF its THEN { "refused" } ELSE BadFail(ev, "other"))
  \cup If(Has(ev, "kept") /\ ~ev.kept, "input-changed")

BadVTyped(ev) ==
  LET ok == Accepts(lins[ev.L], ev.v, ev.d) IN
  CASE ev.r = "panic" -> { "panic" }
    [] ev.r = "ok" -> IF ~ok THEN { "accepted" } ELSE BadGoValue(ev, ev.v, ev.d)
    [] OTHER -> IF ok THEN { "refused" } ELSE BadFail(ev, "ErrInvalidData")

\* Documents derived from a schema.  What is made for closed lists, and for
\* unions when references are expanded, is not looked at: the encoder of CUE is wrong there.
DerivedType(ev) ==
  LET T == TypeOf(lins[ev.L], ev.v) IN IF ev.k = "sub" THEN At(T, ev.path) ELSE { T }
DerivedName(ev) ==
  IF ev.root # "" THEN ev.root ELSE IF ev.k = "sub" THEN ev.path[Len(ev.path)] ELSE lins[ev.L].name
Disagrees(T, d, acc) == LET a == Allowed(T, d) IN If(a = "y" /\ ~acc, "refused-data") \cup If(a = "n" /\ acc, "accepted-data")

BadDerive(ev) ==
  LET Ts == DerivedType(ev)
      T == CHOOSE t \in Ts : TRUE IN
  IF Ts = {} THEN (IF ev.r = "panic" THEN { "panic" } ELSE IF ev.r = "fail" THEN BadFail(ev, "other") ELSE { "accepted" })
  ELSE IF HasKind(T, "cl") \/ (ev.k = "expand" /\ (HasKind(T, "u") \/ HasKind(T, "kinds"))) THEN {}
  ELSE IF ev.r = "panic" THEN { "panic" }
  ELSE IF ev.r # "ok" THEN { IF ev.r = "fail" THEN "refused" ELSE "broken" }
  ELSE IF ev.k = "group"
       THEN If(SeqToSet(ev.comps) # DOMAIN T.f, "components") \cup If(ev.ver # VerText(ev.v), "version")
            \cup UNION { Disagrees(T.f[x].t, ev.d.m[x], ev.acc[x]) : x \in DOMAIN ev.acc \cap DOMAIN T.f }
  ELSE If(ev.comps # << DerivedName(ev) >>, "components") \cup If(ev.title # DerivedName(ev), "title") \cup If(ev.ver # VerText(ev.v), "version")
       \cup UNION { Disagrees(T, ev.d, ev.acc[x]) : x \in DOMAIN ev.acc }

BadGoTypes(ev) ==
  LET T == TypeOf(lins[ev.L], ev.v) IN
  IF ~Generable(T) THEN {}
  ELSE CASE ev.r = "panic" -> { "panic" }
         [] ev.r = "broken" -> { "broken" }
         [] ev.r = "fail" -> { "refused" }
         [] OTHER -> If(~ev.pkgok, "package")
                     \cup IF ev.group THEN UNION { If(~(IF Mixed(T.f[x].t) THEN ev.fields[x].g = "missing" ELSE GenOK(T.f[x].t, ev.fields[x], ev.flat)), "type") : x \in DOMAIN ev.fields }
                          ELSE If(~GenOK(T, ev.G, ev.flat), "type")

\* TypeScript types.
BadTsTypes(ev) ==
  LET lin == lins[ev.L]
      T == TypeOf(lin, ev.v)
      own == (CHOOSE i \in DOMAIN lin.schemas : lin.schemas[i].v = ev.v)
      marked == IF "form" \in DOMAIN lin /\ lin.form = "attrs" THEN { x \in DOMAIN lin.schemas[own].t.f : T.f[x].t.k = "st" } ELSE {}
      root == IF ev.root THEN "Another" ELSE Title[lin.name]
      asked == IF "s" \in DOMAIN ev THEN T.f[ev.s].t ELSE T
      name == IF "s" \in DOMAIN ev THEN ev.s ELSE root IN
  IF ~TsGenerable(T) \/ \E x \in marked : ~TsGenerable(T.f[x].t) THEN {}
  ELSE CASE ev.r = "panic" -> { "panic" }
         [] ev.r = "broken" -> { "broken" }
         [] ev.r = "fail" -> { "refused" }
         [] OTHER -> If(SeqToSet(ev.decls) # TsDecls(T, marked, root, ev.alias, ev.group), "declarations")
                     \cup (IF "acc" \in DOMAIN ev
                           THEN LET a == TsAllowed(asked, ev.d, FALSE) IN If(a = "y" /\ ~ev.acc, "refused-data") \cup If(a = "n" /\ ev.acc, "accepted-data")
                           ELSE {})
                     \cup If("default" \o name \in DOMAIN ev.consts /\ ev.consts["default" \o name] # TsDefaults(asked), "defaults")

\* An empty list in a lacuna has become null by the time it is printed.
RECURSIVE Unlisted(_)
Unlisted(d) == IF IsArr(d) THEN IF d.l = << >> THEN [a |-> "null"] ELSE [d EXCEPT !.l = [i \in DOMAIN d.l |-> Unlisted(d.l[i])]]
               ELSE IF IsObj(d) THEN [d EXCEPT !.m = [x \in DOMAIN d.m |-> Unlisted(d.m[x])]]
               ELSE d
Printed(r) == LET refs(s) == [i \in DOMAIN s |-> [s[i] EXCEPT !.d = Unlisted(s[i].d)]] IN
              IF "lac" \in DOMAIN r THEN [r EXCEPT !.lac = [i \in DOMAIN r.lac |-> [r.lac[i] EXCEPT !.src = refs(r.lac[i].src), !.tgt = refs(r.lac[i].tgt)]]] ELSE r

\* A command: what it printed, and how it ended.
BadCli(ev) ==
  LET lin == lins[ev.L]
      t == CliOutcome(lin, ev) IN
  CASE ev.r = "panic" -> { "panic" }
    [] ev.r = "ok" ->
         IF t.st = "fail" THEN { "accepted" }
         ELSE If(ev.err, "noise")
              \cup (CASE ev.k = "validate" -> If(~ev.empty, "output")
                     [] ev.k = "any" -> IF ev.quiet THEN If(~ev.empty, "output") ELSE If(ev.ov # t.v, "version")
                     [] ev.k = "translate" ->
                          If(ev.from # Attributed(lin, ev), "from")
                          \cup (IF t.st \in { "lost", "blurred" } THEN BadLost(ev, lin, ev.v) ELSE BadOut(Printed(ev), Printed(t)))
                     [] OTHER -> If(ev.od # t.d, "data"))
    [] OTHER -> If(t.st = "run", "refused") \cup If(~ev.empty, "output")
                \cup If(ev.quiet /\ ev.err /\ ~Unusable(lin, ev), "noise") \cup If(~ev.quiet /\ ~ev.err, "mute")

\* Loading from files.
BadLoad(ev) ==
  CASE ev.r = "panic" -> { "panic" }
    [] ev.mod \in LD!NotModule -> If(ev.r # "fail", "accepted") \cup If(ev.r = "fail" /\ ~ev.nm, "class")
    [] LD!Loadable(ev) ->
         IF ev.r # "ok" THEN { "refused" }
         ELSE If(DOMAIN ev.fields # LD!Names(LD!Main(ev)), "fields")
              \cup If(\E x \in DOMAIN ev.fields \cap LD!Names(LD!Main(ev)) : SeqToSet(ev.fields[x]) # LD!Loaded(ev)[x], "imported")
    [] LD!Main(ev) = {} -> If(ev.r = "ok" /\ DOMAIN ev.fields # {}, "fields")
    [] OTHER -> If(~LD!There(ev) /\ ev.r = "ok", "accepted")

\* Generated Go bindings, in a program.  A Go type is bound if it can be.
BadGoBind(ev) ==
  LET lin == lins[ev.L]
      v == IF Has(ev, "v") THEN ev.v ELSE Latest(lin)
      can == IF ev.typed /\ Has(ev, "G") THEN AssignableTo(TypeOf(lin, v), ev.G) ELSE "y" IN
  IF ev.typed /\ ~Generable(TypeOf(lin, v)) THEN {}
  ELSE CASE ev.r = "panic" -> { "panic" }
         [] ev.r = "fail" -> { "refused" }
         [] ev.r = "broken" -> { "broken" }
         [] ev.r = "unbound" -> If(can = "y", "unbound")
         [] OTHER -> If(can = "n", "bound") \cup If(ev.name # lin.name, "name")
                     \cup If(ev.vers # [i \in DOMAIN lin.schemas |-> lin.schemas[i].v], "versions")
                     \cup If(SeqToSet(ev.acc) # { ev.vers[i] : i \in { j \in DOMAIN ev.vers : HasVer(lin, ev.vers[j]) /\ Accepts(lin, ev.vers[j], ev.d) } }, "accepts")
                     \cup If(ev.typed /\ ev.tv # v, "typed-version")

---------------------------------------------------------------------------

Report(ev, bad) == IF bad = {} THEN TRUE ELSE PrintT(<< "MISMATCH", l, ev.e, bad >>)

Forget(ev) == IF Has(ev, "h2") THEN hs' = [x \in DOMAIN hs \ { ev.h2 } |-> hs[x]] ELSE UNCHANGED hs

\* The observed outcome, if it is one that Thema allows, is taken over.
Follow(ev, bad, A) ==
  /\ Report(ev, bad)
  /\ IF bad \ { "accepted-evaluator" } = {} THEN A /\ out'.r = ev.r ELSE UNCHANGED << lins, out >> /\ Forget(ev)

\* Several mismatch aspects do not affect the outcome itself.
Known(ev) == Has(ev, "L") => ev.L \in DOMAIN lins

Skip == UNCHANGED << lins, hs, out >>

TBegin == Ev.e = "begin" /\ lins' = << >> /\ hs' = << >> /\ out' = [e |-> "init", r |-> "ok"]
TBind  == Ev.e = "bind" /\ LET b == BadBind(Ev) \cup BadMade(Ev) IN
            /\ Report(Ev, b)
            /\ IF b \ { "accepted-evaluator" } = {} /\ ~(Unusual(Ev.lin) /\ Ev.r # "ok") THEN Bind(Ev.L, Ev.lin) /\ out'.r = Ev.r ELSE Skip
TValidate == Ev.e = "validate" /\ IF Known(Ev) THEN Follow(Ev, BadValidate(Ev), Validate(Ev.L, Ev.v, Ev.d, Ev.h2)) ELSE Skip
TAny      == Ev.e = "any" /\ IF Known(Ev) THEN Follow(Ev, BadAny(Ev), ValidateAny(Ev.L, Ev.d, Ev.h2)) ELSE Skip
TTranslate == Ev.e = "translate" /\ IF Ev.h \in DOMAIN hs
                THEN Follow(Ev, BadTransform(Ev, LinOf(Ev.h), Ev.v, Translate(LinOf(Ev.h), hs[Ev.h], Ev.v)), DoTranslate(Ev.h, Ev.v, Ev.h2)) ELSE Skip
\* An instance that is at the end here, but was not there in the program.
Astray(ev) == Report(ev, { "version" }) /\ UNCHANGED << lins, out >> /\ Forget(ev)
TSucc == Ev.e = "succ" /\ IF Ev.h \in DOMAIN hs
           THEN IF SuccessorOf(LinOf(Ev.h), hs[Ev.h].v) = NoVer THEN Astray(Ev) ELSE Follow(Ev, BadTransform(Ev, LinOf(Ev.h), SuccessorOf(LinOf(Ev.h), hs[Ev.h].v), AsSuccessor(LinOf(Ev.h), hs[Ev.h])), DoSucc(Ev.h, Ev.h2)) ELSE Skip
TPred == Ev.e = "pred" /\ IF Ev.h \in DOMAIN hs
           THEN IF PredecessorOf(LinOf(Ev.h), hs[Ev.h].v) = NoVer THEN Astray(Ev) ELSE Follow(Ev, BadTransform(Ev, LinOf(Ev.h), PredecessorOf(LinOf(Ev.h), hs[Ev.h].v), AsPredecessor(LinOf(Ev.h), hs[Ev.h])), DoPred(Ev.h, Ev.h2)) ELSE Skip
THydrate == Ev.e = "hydrate" /\ IF Ev.h \in DOMAIN hs
              THEN Follow(Ev, BadTransform(Ev, LinOf(Ev.h), hs[Ev.h].v, Hydrated(Ev.h)), DoHydrate(Ev.h, Ev.h2)) ELSE Skip
TDehydrate == Ev.e = "dehydrate" /\ IF Ev.h \in DOMAIN hs
                THEN Follow(Ev, BadTransform(Ev, LinOf(Ev.h), hs[Ev.h].v, Dehydrated(Ev.h)), DoDehydrate(Ev.h, Ev.h2)) ELSE Skip
TObserve == Ev.e = "observe" /\ IF Ev.h \in DOMAIN hs
              THEN LET b == If(Ev.r = "panic", "panic") \cup
                            (IF Ev.r = "panic" THEN {} ELSE If(Ev.ov # hs[Ev.h].v, "version") \cup If(Ev.od # hs[Ev.h].d, "data")) IN
                   Report(Ev, b) /\ IF b = {} THEN Observe(Ev.h) ELSE Skip
              ELSE Skip
TReval == Ev.e = "reval" /\ IF Ev.h \in DOMAIN hs
            THEN LET b == BadReval(Ev) IN Report(Ev, b) /\ Revalidate(Ev.h, Ev.v) ELSE Skip
TMux    == Ev.e = "mux" /\ IF Known(Ev) THEN LET b == BadMux(Ev) IN
              Report(Ev, b) /\ IF b = {} /\ ~Flawed(Ev) THEN DoMux(Ev.L, Ev.v, Ev.d) /\ out'.r = Ev.r ELSE Skip
           ELSE Skip
TNav    == Ev.e = "nav" /\ IF Known(Ev) THEN LET b == BadNav(Ev) IN Report(Ev, b) /\ Nav(Ev.L) ELSE Skip
TLookup == Ev.e = "lookup" /\ IF Known(Ev) THEN LET b == BadLookup(Ev) IN Report(Ev, b) /\ Lookup(Ev.L, Ev.v) ELSE Skip
TAppend == Ev.e = "append" /\ IF Known(Ev) /\ Ev.L2 \in DOMAIN lins
             THEN LET b == BadAppend(Ev) IN Report(Ev, b) /\ IF b = {} THEN CheckAppend(Ev.L, Ev.L2) /\ out'.r = Ev.r ELSE Skip ELSE Skip
TExamples == Ev.e = "examples" /\ (IF Known(Ev) THEN Report(Ev, BadExamples(Ev)) ELSE TRUE) /\ Skip

TParse == Ev.e = "parse" /\ Report(Ev, BadParse(Ev)) /\ Skip
TOrder == Ev.e = "order" /\ Report(Ev, BadOrder(Ev)) /\ Skip

TGoTypes == Ev.e = "gotypes" /\ (IF Known(Ev) THEN Report(Ev, BadGoTypes(Ev)) ELSE TRUE) /\ Skip
\* Several goroutines have come to an end; their operations are the ones before.
TPar == Ev.e = "par" /\ Skip
        /\ Report(Ev, IF Ev.r = "panic" THEN { "hang" }
                       ELSE If(Ev.races > 0, "race") \cup If(Ev.differs # << >>, "differs"))
\* A lineage that the library does not take is not taken here, either.
TCli == Ev.e = "cli" /\ Skip
        /\ Report(Ev, IF Known(Ev) THEN BadCli(Ev)
                       ELSE IF Ev.bound THEN {} ELSE IF Ev.r = "panic" THEN { "panic" }
                       ELSE If(Ev.r = "ok", "accepted-lineage") \cup If(Ev.r # "ok" /\ (~Ev.empty \/ ~Ev.err), "mute"))
TDerive == Ev.e = "derive" /\ (IF Known(Ev) THEN Report(Ev, BadDerive(Ev)) ELSE TRUE) /\ Skip
TGoBind == Ev.e = "gobind" /\ (IF Known(Ev) THEN Report(Ev, BadGoBind(Ev)) ELSE TRUE) /\ Skip
TLoad == Ev.e = "load" /\ Report(Ev, BadLoad(Ev)) /\ Skip
TTsTypes == Ev.e = "tstypes" /\ (IF Known(Ev) THEN Report(Ev, BadTsTypes(Ev)) ELSE TRUE) /\ Skip
TAssign == Ev.e = "assign" /\ (IF Known(Ev) THEN Report(Ev, BadAssign(Ev)) ELSE TRUE) /\ Skip

TBindType == Ev.e = "bindtype" /\ (IF Known(Ev) THEN Report(Ev, BadBindType(Ev)) ELSE TRUE) /\ Skip
TValue == Ev.e = "value" /\ (IF Known(Ev) /\ Ev.h \in DOMAIN hs THEN Report(Ev, BadValue(Ev)) ELSE TRUE) /\ Skip
TVTyped == Ev.e = "vtyped" /\ (IF Known(Ev) THEN Report(Ev, BadVTyped(Ev)) ELSE TRUE) /\ Skip

TraceInit == Init /\ l = 1
TraceNext ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ \/ TBegin \/ TBind \/ TValidate \/ TAny \/ TTranslate \/ TSucc \/ TPred \/ THydrate \/ TDehydrate
     \/ TObserve \/ TReval \/ TMux \/ TNav \/ TLookup \/ TAppend \/ TExamples
     \/ TBindType \/ TValue \/ TVTyped \/ TParse \/ TAssign \/ TDerive \/ TGoTypes \/ TTsTypes \/ TGoBind \/ TLoad \/ TPar \/ TOrder \/ TCli

TraceSpec == TraceInit /\ [][TraceNext]_<< vars, l >>

\* Every line was consumed.
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
