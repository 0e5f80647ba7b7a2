"""What decides each property: the models and generators that are run, and the
aspects of a disagreement between code and specification that concern it."""

# aspects of the outcome of an operation
DATA = ["accepted", "refused", "version", "data", "panic", "nil", "class", "nonnil", "mute"]
TRANS = ["accepted", "refused", "version", "data", "nil", "invalid", "panic", "input-changed", "lineage", "class", "nonnil", "mute", "calls"]
CRASH = {"crash": "*"}


def p(quick, thorough, tags, **kw):
    t = dict(CRASH)
    t.update(tags)
    d = {"quick": quick, "thorough": thorough, "tags": t}
    d.update(kw)
    return d


PROPS = {
    "P01": p([("mc", "Num"), ("mc", "Nav"), ("fuzz", "numbering", 160)],
             [("mc", "Num"), ("mc", "Nav"), ("fuzz", "numbering", 2000, 3)],
             {"bind": ["accepted-numbering", "refused-*", "class", "nonnil", "all", "name", "panic", "mute"]}),
    "P02": p([("file", "known"), ("mc", "Compat"), ("fuzz", "compat", 240)],
             [("file", "known"), ("mc", "Compat"), ("fuzz", "compat", 3000, 3)],
             {"bind": ["accepted-compat", "accepted-evaluator", "refused-*", "class", "nonnil", "panic", "mute"]}),
    "P03": p([("file", "known"), ("fuzz", "backward", 400), ("world", "cue")],
             [("file", "known"), ("fuzz", "backward", 4000, 3), ("world", "cue"), ("world", "go")],
             {"reval": "*", "validate": ["refused", "panic"], "bind": ["accepted-compat"]}),
    "P04": p([("mc", "Valid"), ("fuzz", "validate", 400)],
             [("mc", "Valid"), ("fuzz", "validate", 5000, 3)],
             {"validate": ["accepted", "refused", "version", "data", "panic"], "reval": ["accepted", "refused", "version", "data", "panic"]}),
    "P05": p([("mc", "Valid"), ("fuzz", "validate", 500)],
             [("mc", "Valid"), ("fuzz", "validate", 5000, 3)],
             {"validate": ["class", "nonnil", "mute", "paths-extra", "paths-missed", "paths-none", "panic", "accepted"],
              "reval": ["class", "nonnil", "mute", "panic"]}),
    "P06": p([("mc", "Acc"), ("fuzz", "any", 300)],
             [("mc", "Acc"), ("fuzz", "any", 4000, 3)],
             {"any": "*"}),
    "P07": p([("world", "cue"), ("world", "go"), ("mc", "Order"), ("fuzz", "translate", 160)],
             [("world", "cue"), ("world", "go"), ("mc", "Order"), ("fuzz", "translate", 1500, 3)],
             {"translate": TRANS, "succ": TRANS, "pred": TRANS, "observe": "*"}),
    "P08": p([("file", "known"), ("world", "bad"), ("world", "gobad"), ("fuzz", "badlens", 240)],
             [("file", "known"), ("world", "bad"), ("world", "gobad"), ("fuzz", "badlens", 3000, 3)],
             {"translate": TRANS + ["accepted-evaluator"], "succ": TRANS, "pred": TRANS, "mux": ["accepted", "panic", "class", "nonnil", "mute", "nil", "invalid"], "observe": "*"}),
    "P09": p([("world", "cue"), ("fuzz", "lacunas", 120)],
             [("world", "cue"), ("fuzz", "lacunas", 1200, 3)],
             {e: ["lacunas", "lacuna-versions", "panic"] for e in ("translate", "succ", "pred", "mux")}),
    "P10": p([("mc", "GoSet"), ("fuzz", "goset", 240)],
             [("mc", "GoSet"), ("fuzz", "goset", 4000, 3)],
             {"bind": ["accepted-golenses", "refused-golenses", "class", "nonnil", "panic", "mute"]}),
    "P11": p([("world", "go"), ("world", "gobad"), ("fuzz", "golens", 300)],
             [("world", "go"), ("world", "gobad"), ("fuzz", "golens", 4000, 3)],
             {"translate": "*", "succ": "*", "pred": "*", "mux": "*", "observe": "*"}),
    "P12": p([("mc", "Nav"), ("fuzz", "nav", 200)],
             [("mc", "Nav"), ("fuzz", "nav", 3000, 3)],
             {"nav": "*", "lookup": "*", "bind": ["all", "name"]}),
    "P13": p([("model", "MCVer"), ("fuzz", "version", 240)], [("model", "MCVer"), ("fuzz", "version", 4000, 3)],
             {"parse": "*", "order": "*", "nav": ["latest", "panic"]}),
    "P14": p([("file", "hydrate"), ("mc", "Hyd"), ("fuzz", "hydrate", 240)],
             [("file", "hydrate"), ("mc", "Hyd"), ("fuzz", "hydrate", 4000, 3)],
             {"hydrate": "*", "dehydrate": "*", "observe": "*"}),
    "P15": p([("file", "known"), ("mc", "App"), ("fuzz", "append", 240)],
             [("file", "known"), ("mc", "App"), ("fuzz", "append", 3000, 3)],
             {"append": "*"}),
    "P16": p([("mc", "Acc"), ("world", "cue"), ("fuzz", "mux", 240), ("fuzz", "typed", 80)],
             [("mc", "Acc"), ("world", "cue"), ("world", "go"), ("fuzz", "mux", 3000, 3), ("fuzz", "typed", 1000, 3)],
             {"mux": "*"}),
    "P17": p([("model", "MCGo"), ("fuzz", "assign", 240)], [("model", "MCGo"), ("fuzz", "assign", 4000, 3)], {"assign": "*"}),
    "P18": p([("fuzz", "typed", 200)], [("fuzz", "typed", 3000, 3)],
             {"bindtype": "*", "value": "*", "vtyped": "*", "observe": "*"}),
    "P19": p([("model", "MCDer"), ("fuzz", "derive", 240)], [("model", "MCDer"), ("fuzz", "derive", 3000, 3)], {"derive": "*"}),
    "P20": p([("model", "MCGen"), ("fuzz", "gotypes", 320)], [("model", "MCGen"), ("fuzz", "gotypes", 4000, 3)], {"gotypes": "*"}),
    "P21": p([("model", "MCTs"), ("fuzz", "tstypes", 320)], [("model", "MCTs"), ("fuzz", "tstypes", 4000, 3)], {"tstypes": "*"},
             assumptions=["the TypeScript compiler 5.9 decides assignability"]),
    "P22": p([("model", "MCOld"), ("fuzz", "made", 280)], [("model", "MCOld"), ("fuzz", "made", 3000, 3)],
             {e: "*" for e in ("bind", "validate", "any", "translate", "hydrate", "nav", "lookup")}, cli=True),
    "P24": p([("model", "MCPar"), ("fuzz", "par", 120)], [("model", "MCPar"), ("fuzz", "par", 600, 3)], {"par": "*"}, race=True,
             assumptions=["the race detector sees the accesses of the schedules that occur"]),
    "P25": p([("model", "MCCli"), ("fuzz", "cli", 64)], [("model", "MCCli"), ("fuzz", "cli", 600, 3)],
             {"cli": "*", "derive": "*", "gotypes": "*"}, cli=True),
    "P26": p([("fuzz", "forms", 200)], [("fuzz", "forms", 2500, 3)],
             {e: "*" for e in ("bind", "validate", "any", "translate", "hydrate", "nav", "lookup", "examples")}),
    "P27": p([("world", "cue"), ("fuzz", "history", 48)], [("world", "cue"), ("world", "bad"), ("world", "go"), ("fuzz", "history", 400, 3)],
             {"observe": "*", "translate": ["input-changed", "data", "version", "panic"], "succ": ["input-changed", "data", "version", "panic"],
              "pred": ["input-changed", "data", "version", "panic"], "hydrate": ["input-changed", "data", "version", "panic"],
              "dehydrate": ["input-changed", "data", "version", "panic"], "validate": ["data", "version", "accepted", "refused", "panic"],
              "any": ["data", "version", "accepted", "refused", "panic"], "reval": "*", "nav": "*", "lookup": "*", "mux": ["input-changed", "data", "version", "panic"]}),
    "P28": p([("fuzz", "examples", 240)], [("fuzz", "examples", 3000, 3)],
             {"examples": "*"}),
    "P29": p([("model", "MCBind"), ("fuzz", "gobind", 24)], [("model", "MCBind"), ("fuzz", "gobind", 240)],
             {"gobind": "*"}, cli=True),
    "P30": p([("mc", "Order"), ("fuzz", "lensorder", 120)], [("mc", "Order"), ("fuzz", "lensorder", 2000, 3)],
             {"bind": ["accepted-lensorder", "refused-none", "class", "nonnil", "all", "name", "panic", "mute"]}),
    "P23": p([("model", "MCLoad"), ("fuzz", "load", 240)], [("model", "MCLoad"), ("fuzz", "load", 4000, 3)],
             {"load": "*"}),
}
