#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from table import PROPS

P = []


def prop(id, title, statement, over, text, why, files, mechanism):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": mechanism}})


prop("P01", "A lineage binds only if its version numbers form the one correct sequence",
     "Binding a lineage succeeds only if its schemas are numbered 0.0 first and each following one is either the next minor version of the same major version or the first minor version (x.0) of the next major version; gaps, repetitions, reorderings and wrong starts are refused with an error that belongs to the documented family of lineage errors, and no lineage is returned. A lineage numbered correctly is never refused on account of its numbers, however many versions it has, and once bound it lists exactly those schemas in that order.",
     ["inputs", "configurations"], "every list of schema version numbers, for lineages of any length and any mix of minor and major versions, with compatibility checks on or off",
     "tests bind a few dozen fixed lineages, nearly all correctly numbered and with at most three major versions; wrong sequences are infinitely many and errors in indexing show only from a certain length or mix on",
     ["bind.go", "lineage.cue", "lineage.go"], "version assignment and ordering checks while binding; the computed list of versions in lineage.cue")
prop("P02", "A version number claims compatibility exactly when the change is compatible",
     "A schema may be published as the next minor version only if every instance of its predecessor, defaults filled in, remains an instance of it (no value, field or enumeration member taken away, no field newly required, no default altered), and as a new major version only if that is not so: binding refuses a lineage whose numbering claims a compatible change that is breaking, or a breaking change that is compatible, at any position in the lineage and at any depth in the schema. Where compatibility is beyond what the schema language's subsumption can establish, a new major version is always accepted; switching the check off by the documented option disables only this rule.",
     ["inputs", "programs"], "every pair of consecutive schemas, at any depth of the change within the schema, and at any position in the lineage",
     "the relation is over all pairs of schemas; tests have a handful of pairs, each broken at one place",
     ["bind.go", "lineage.go", "internal/compat/compat.go"], "pairwise compatibility check of each schema with its predecessor while binding")
prop("P03", "Within a major version, data stays valid for every later minor version",
     "Data that a schema accepts is, with the defaults of that schema filled in, accepted by every later schema of the same major version of a bound lineage whose compatibility was checked.",
     ["inputs", "programs"], "every bound lineage, every schema in it, every document it accepts, and every later minor version",
     "quantifies over all documents of all versions of all lineages; tests validate a few documents against the version they were written for",
     ["bind.go", "schema.go", "instance.go"], "the compatibility check at bind time together with validation and hydration")
prop("P04", "Validation accepts exactly the instances of a schema",
     "A schema accepts a document if and only if the document satisfies it: all required fields that have no default are there, no field is there that the schema (including what all schemas of the lineage have in common) does not allow at any depth, and every value is within the type given. The instance returned carries exactly the document, unmodified, and the schema that was asked.",
     ["inputs", "programs"], "every schema of every bound lineage, every document, and every way of handing the document over (JSON, YAML, CUE, Go values)",
     "the space of schema and document pairs is unbounded; tests pick a few of each, mostly at top level",
     ["schema.go", "validate.go", "instance.go", "lineage.cue"], "Schema.Validate, unification with the recursively closed schema, concreteness check")
prop("P05", "A refused document is refused with an error that says where it is wrong",
     "When a document is refused, the caller gets no instance but an error that can be recognised as invalid-data, is not empty, and names, for every place in the document where something is there that must not be, that place, or if there is no such place then every place where something required is missing; it names no place at which the document is right. Refusing never panics, whatever the shape of the document.",
     ["inputs", "programs"], "every schema and every document it refuses, with any number of errors at any depth",
     "tests have one or two errors per document from a few templates; combinations of errors, nested lists, unions and missing values go through different paths of error conversion",
     ["validate.go", "schema.go", "errors/errors.go"], "conversion of evaluator errors to validation errors")
prop("P06", "Untagged data is attributed to the oldest version that accepts it",
     "Asked to find a version for a document, a lineage returns an instance, carrying exactly the document, of the oldest of all its schemas that accept it, and nothing if and only if none of them does.",
     ["inputs", "programs"], "every bound lineage, every document, and every subset of schemas that accept it",
     "the result depends on the whole pattern of accepting schemas, of which there are exponentially many; tests try documents that fit one version",
     ["lineage.go"], "ValidateAny's search over schemas")
prop("P07", "Translation applies the lens of each version step in order to give an instance",
     "Translating an instance to another version yields what results from going step by step through all versions between, where a step to the next minor version keeps the data and any other step applies the lens defined for exactly that step, with the defaults of each version reached filled in; the result is an instance of precisely the version asked for, in the same lineage, and is valid for it. Translating to the version an instance already has changes nothing, moving one version forwards or backwards agrees with translating there, and the instance translated is left as it was.",
     ["inputs", "programs", "histories"], "every bound lineage with lenses, every valid instance, every source and target version, and instances that are themselves results of translations",
     "depends on lens programs, data and path together; tests translate a few documents through lineages with two or three versions",
     ["instance.go", "translate.cue", "lineage.cue"], "Instance.Translate, the #Translate pipeline in CUE, AsSuccessor and AsPredecessor")
prop("P08", "A failing lens never produces a result",
     "If a lens on the way cannot produce an instance of its target version from the data it gets - because a value it needs is absent, its result is invalid for the version, it returns an error, returns nothing, or returns something of another version - then translating returns no instance but an error recognisable as a lens error, and does not panic; this holds also when the data happens to be valid for the target version. The instance translated is left as it was.",
     ["inputs", "programs", "fault_sequences"], "every lineage with a lens that fails for some data, every such datum, every path through the failing step as the last step, for lenses in CUE and in Go",
     "failures depend on the data and on the position of the failing step; tests only have lenses that work",
     ["instance.go", "translate.cue", "errors/errors.go"], "checks of lens results during translation")
prop("P09", "Every lacuna of every step is reported, once, in order",
     "A translation reports exactly the lacunas of the lenses it applied whose condition holds for the data at that step, each once, in the order of the steps and within a step in the order in which the lens lists them, with their type, message and field references and values; translations without such lacunas report none.",
     ["inputs", "programs"], "every lineage with lenses in CUE, every instance and path, every combination of lacunas with conditions that hold or do not hold",
     "accumulation over several steps with data-dependent conditions has exponentially many combinations; tests never look at lacunas of more than one step",
     ["instance.go", "translate.cue", "lacuna.go", "lacuna.cue"], "collection of lacunas during translation")
prop("P10", "A lineage with Go lenses binds only with exactly the lenses it needs",
     "When lenses are given as Go functions, binding succeeds if and only if there is exactly one for every step back to the preceding version and exactly one for every step forward to a new major version, and no other; missing, superfluous and duplicate lenses and lenses without a function are refused, the first two with their documented error.",
     ["inputs", "configurations"], "every set of Go lenses between any versions (existing or not) for every lineage, in any order and however distributed over options",
     "sets of lenses grow exponentially with the number of versions; tests try three or four sets",
     ["bind.go", "surface.go", "lineage.go"], "checks of imperative lenses while binding")
prop("P11", "Go lenses are called once per step, in order, and their results are enforced",
     "A translation in a lineage with Go lenses calls, for every step that needs one, the lens of that step exactly once, in the order of the path, with the instance as translated so far and the schema it must lead to; steps to the next minor version call no lens. What a lens returns is used only if it is an instance of the schema the step leads to; otherwise the translation fails.",
     ["inputs", "programs", "histories"], "every lineage with Go lenses, every instance, source and target version, and every behaviour of lenses (results, errors, nothing, wrong version)",
     "tests use well-behaved lenses over one path; the order and number of calls is not observed at all",
     ["instance.go", "bind.go", "surface.go"], "Instance.translateGo")
prop("P12", "Moving between the schemas of a lineage agrees with their version order",
     "First, latest, successor, predecessor, newest of its major version, lookup by version and newest of a given major version all agree with the one ascending order of the versions in the lineage: successor and predecessor are inverse, there are none at the ends, lookup finds a schema if and only if a schema with exactly that version exists and otherwise reports that the version does not exist, and all of them return the very same schema for the same version.",
     ["inputs", "configurations"], "every bound lineage of any length and mix of versions, every schema in it, and every version number existing or not",
     "errors of indexing depend on how many minor versions each of several major versions has; tests use lineages of at most a few versions",
     ["schema.go", "lineage.go", "surface.go", "lineage.cue"], "schema lookup and the linked list of schemas")
prop("P14", "Filling in and taking out defaults keep an instance what it is",
     "Filling in the defaults of an instance adds every value that its schema gives by default to a required field that is absent, at any depth of structs and lists, and changes nothing else; taking them out removes exactly the fields that hold their default; both yield valid instances of the same schema, both are idempotent, and filling in after taking out gives what filling in gives (except for optional fields that spelled out their default). The original instance is left as it was.",
     ["inputs", "programs", "histories"], "every schema with any arrangement of defaults, every valid instance, and every sequence of the two operations",
     "each arrangement of defaults in nested structs, lists and optional fields goes through different code; tests have a handful",
     ["hydrate.go", "instance.go"], "Instance.Hydrate and Dehydrate, recursive over schema and data")
prop("P15", "The append-only check accepts exactly lineages that keep all published schemas",
     "Comparing a lineage with a later version of itself succeeds if and only if the later one still has every schema of the earlier one, each accepting precisely the same data under the same version, and any new schemas come after them; removing, reordering or changing any published schema, also by way of what all schemas have in common, is reported.",
     ["inputs", "programs", "histories"], "every pair of bound lineages",
     "changes can be anywhere in any schema; tests compare a few pairs",
     ["lineage.go", "internal/compat/compat.go"], "IsAppendOnly")
prop("P16", "A version multiplexer turns any version's data into the one version asked for",
     "For data in the given encoding that any schema of the lineage accepts, a multiplexer returns the instance (or value, or encoded bytes) of the version it was made for: the data itself if it is valid for that version, and otherwise the translation of the data taken as an instance of the newest schema that accepts it, together with the lacunas of that translation; data that no schema accepts, and undecodable data, gives an error and no result. All kinds of multiplexer agree with one another and with validating and translating by hand, and the input bytes are left alone.",
     ["inputs", "programs"], "every lineage, every version to multiplex to, every document in JSON or YAML, all kinds of multiplexer",
     "combines attribution, translation and encoding over all versions; tests run one lineage with a few inputs",
     ["vmux/mux.go", "vmux/untyped.go", "vmux/byte.go", "vmux/typed.go", "vmux/value.go"], "NewUntypedMux, NewByteMux, NewTypedMux, NewValueMux and the codecs")
prop("P26", "How a lineage is written down or loaded makes no difference",
     "A lineage gives the same outcome of binding, and if bound behaves the same in every operation, whether it is plain text, refers to or embeds the lineage definition, is unified with it, is found at a path within a larger value or package, or is split over several parts.",
     ["inputs", "programs", "configurations"], "every lineage, every documented way to write it down or load it, every operation",
     "the combinations of form and content are many; tests use one form for nearly everything",
     ["bind.go", "lineage.go", "load/load.go", "lineage.cue"], "BindLineage's handling of the value given, load.InstanceWithThema")
prop("P27", "Operations depend only on their arguments and change nothing that exists",
     "Whatever has been done before with a runtime - binding other lineages, failed operations, translations and translations of their results, in any order and number - every operation gives the same outcome for the same arguments, and lineages, schemas and instances that exist stay exactly as they are.",
     ["histories", "programs"], "every sequence of operations on a shared runtime and every instance alive at any point of it",
     "a violation needs a particular sequence of operations; tests use fresh state for each assertion",
     ["runtime.go", "lineage.go", "instance.go", "schema.go"], "sharing of CUE values between runtime, lineages, schemas and instances")
prop("P28", "The examples of a schema are instances of it",
     "The examples a schema offers are exactly those its lineage declares for that version, under their names, each an instance of that very schema that carries the declared example with defaults filled in.",
     ["inputs", "programs"], "every bound lineage with examples on any of its versions",
     "tests look at examples of one lineage",
     ["schema.go", "lineage.go"], "Schema.Examples")

exec(open(os.path.join(HERE, "tools", "moreprops.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "moreprops.py")) else None

P.sort(key=lambda x: x["id"])
ids = [x["id"] for x in P]
assert sorted(ids) == sorted(PROPS), (set(ids) ^ set(PROPS))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        n = x["statement"].count(". ") + 1
        assert n <= 3, (x["id"], n)
        for fn in x["anchors"]["files"]:
            assert os.path.exists("/repo/" + fn), (x["id"], fn)
        f.write(json.dumps(x) + "\n")

checks = []
for x in P:
    c = PROPS[x["id"]]
    checks.append({
        "property": x["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % x["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % x["id"],
        "technique": c.get("technique", "TLA+ specification checked with TLC; its behaviours and random ones executed on the real code, recorded traces validated against the specification by TLC"),
        "level": "model_checking",
        "level_note": c.get("note", "The laws hold on the specification for every case enumerated (bounded types, data, lineages, histories); the code agrees with the specification on every operation of every enumerated and random history executed. Trusts TLC, the driver's rendering of model values, and the abstraction described in DESIGN.md."),
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": NA if "NA" in globals() else []}
if "HOOKS" in globals():
    m["hooks"] = HOOKS
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
