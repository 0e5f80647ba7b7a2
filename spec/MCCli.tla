-------------------------------- MODULE MCCli --------------------------------
(***************************************************************************)
(* A document in a file, on which commands are run one after another; what *)
(* a command prints becomes the document.  All commands, with all ways to  *)
(* give a version, are tried on every document that is reached.            *)
(***************************************************************************)
EXTENDS Cli, Ship, Json, SequencesExt

Lin == [Base EXCEPT !.lenses = << L10, L20, L12, L32 >>]
Steps == IF "DEEP" \in DOMAIN IOEnv /\ IOEnv.DEEP = "1" THEN 3 ELSE 1

VARIABLES doc, n, used
cvars == << doc, n, used >>

Vers == Vs \cup { << 2, 0 >> }
Cmds(d) ==
  { [k |-> k, vt |-> "given", v |-> v, lay |-> "file", d |-> d] : k \in { "validate", "any", "translate", "hydrate", "dehydrate" }, v \in Vers }
  \cup { [k |-> k, vt |-> t, v |-> << 0, 0 >>, lay |-> l, d |-> d] :
           k \in { "validate", "any", "translate", "hydrate", "dehydrate" }, t \in { "none" }, l \in { "file", "nopath" } }
Prints(c, t) == t.st = "run" /\ c.k \in { "translate", "hydrate", "dehydrate" }

CInit == doc \in { Docs[i] : i \in DOMAIN Docs } /\ n = 0 /\ used = NoVer
CNext == \E c \in Cmds(doc) :
           LET t == CliOutcome(Lin, c) IN
           n < Steps /\ Prints(c, t) /\ doc' = t.d /\ n' = n + 1 /\ used' = t.v
CSpec == CInit /\ [][CNext]_cvars

\* What is printed is valid for the version it was printed for.
Usable == used # NoVer => Accepts(Lin, used, doc)
\* Giving the version that would be found changes nothing.
Explicit ==
  \A c \in Cmds(doc) :
    c.vt = "none" /\ c.lay = "file" /\ c.k \in { "any", "hydrate", "dehydrate" } /\ Attributed(Lin, c) # NoVer =>
      LET o == CliOutcome(Lin, c) p == CliOutcome(Lin, [c EXCEPT !.vt = "given", !.v = Attributed(Lin, c)]) IN o = p
\* A command that refuses to attribute data has no result.
Refused == \A c \in Cmds(doc) : (Misplaced(c) \/ Attributed(Lin, c) = NoVer) => CliOutcome(Lin, c) = CliFail

---------------------------------------------------------------------------

View == doc
Lays == << "file", "mod", "path", "here", "nopkg", "files", "rel", "imported", "plain", "modfile", "cwd", "dir", "modrel",
           "nested", "alone", "modalone", "above", "deep", "dots", "spaces", "link", "quoted", "defpath", "listed", "among" >>
Ins == << "json", "pipe", "yaml", "redirect", "noext", "yml", "pipeyaml", "pipe json", "yaml yaml", "ldjson", "pipeyaml yaml" >>
AsOp(c, i) ==
  [e |-> "cli", L |-> "L", k |-> c.k, d |-> c.d, in |-> Ins[(i % Len(Ins)) + 1], s2 |-> IF c.lay = "nopath" THEN "nopath" ELSE Lays[(i % Len(Lays)) + 1]]
  @@ (IF c.vt = "given" THEN [v |-> c.v] ELSE << >>)
Ops == LET s == SetToSeq(Cmds(doc)) IN [i \in DOMAIN s |-> AsOp(s[i], i + TLCGet("distinct"))]
Probe == Serialize(ToJson([id |-> "d" \o ToString(TLCGet("distinct")), ops |-> << [e |-> "bind", L |-> "L", lin |-> Lin] >> \o Ops]) \o "\n", IOEnv.OUT,
                   [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>])
Emit == Probe.exitValue = 0
=============================================================================
