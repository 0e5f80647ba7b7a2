#!/usr/bin/env python3
"""Decides one property of grafana/thema.

    check.py PROPERTY [--tier quick|thorough] [--seed N] [--keep DIR]
    check.py --replay FILE          run the history in FILE again, and judge it

The specification (spec/*.tla) is explored with TLC; the behaviours it
enumerates, and randomly generated ones, are executed by the driver
(harness/) against the code in /repo's working tree; the traces recorded
are checked against the specification by TLC.  See DESIGN.md.

exit 0: held on everything explored; 1: a VIOLATION line was printed;
anything else: the machinery failed.
"""
import concurrent.futures as cf
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from table import PROPS  # noqa: E402

SHARDS = int(os.environ.get("VERIF_JOBS", "8"))
REPO = "/repo"


class Broken(Exception):
    """The machinery itself failed."""


def env():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1", GOSUMDB="off",
             GORACE="exitcode=0 halt_on_error=0")
    return e


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(tmp, pkg="./cmd/vh", name="vh", race=False, tags=""):
    """Builds a driver from /repo's working tree.  go.mod and go.sum are
    copied, so that nothing under /verif is rewritten."""
    src = os.path.join(HERE, "harness")
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(src, f), os.path.join(tmp, f))
    out = os.path.join(tmp, name)
    cmd = ["go", "build", "-modfile", os.path.join(tmp, "go.mod"), "-o", out]
    if race:
        cmd.append("-race")
    if tags:
        cmd += ["-tags", tags]
    r = sh(cmd + [pkg], cwd=src, env=env())
    if r.returncode != 0:
        raise Broken("the driver does not build:\n" + r.stdout[-3000:])
    return out


def build_all(tmp, cfg):
    """The driver, and the thema command if the property needs it."""
    if cfg.get("cli"):
        build(tmp, pkg="github.com/grafana/thema/cmd/thema", name="thema")
    return build(tmp, race=bool(cfg.get("race")))


class Run:
    def __init__(self, prop, tier, seed, keep=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.cfg = PROPS[prop]
        self.tmp = keep or tempfile.mkdtemp(prefix="verif-%s-" % prop)
        os.makedirs(self.tmp, exist_ok=True)
        self.keep = keep
        self.states = self.transitions = 0
        self.scenarios = self.events = 0
        self.samples, self.models = [], []
        self.mismatches = []      # (aspects, event, scenario)
        self.cut = []             # why traces could not be judged to their end
        self.notes = []
        self.tally = {}
        self.pool = cf.ThreadPoolExecutor(SHARDS)

    # -- the specification -------------------------------------------------

    def tlc(self, name, cfg, module, workers, extra, timeout=800):
        meta = tempfile.mkdtemp(dir=self.tmp, prefix="meta-")
        e = env()
        e.update(extra)
        e["JAVA_TOOL_OPTIONS"] = "-Djava.io.tmpdir=" + meta
        cmd = ["tlc", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, module]
        r = sh(cmd, cwd=os.path.join(HERE, "spec"), env=e, timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        return r.stdout

    def explore(self, kind, name):
        """Checks the laws on the model, and has it write scenarios."""
        out = os.path.join(self.tmp, "scen-%s-%s.ndjson" % (kind, name))
        x = {"OUT": out, "WORLD": "cue", "DEEP": "1" if self.tier == "thorough" else "0"}
        if kind == "mc":
            txt = self.tlc(name, "MC%s.cfg" % name, "MC.tla", 4, x)
        elif kind == "world":
            x["WORLD"] = name
            txt = self.tlc(name, "World.cfg", "World.tla", 1, x)
        else:
            # models that append to their output file take one worker
            txt = self.tlc(name, name + ".cfg", name + ".tla", 1 if name in ("MCCli", "MCInit") else 4, x)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", txt)
        if not m or "No error has been found" not in txt:
            raise Broken("model %s %s: %s" % (kind, name, txt[-2500:]))
        self.transitions += int(m.group(1))
        self.states += int(m.group(2))
        self.models.append({"model": kind + " " + name, "distinct_states": int(m.group(2)), "states_generated": int(m.group(1))})
        return out

    # -- the real code -----------------------------------------------------

    def drive(self, vh, job, args, env_extra=None):
        """Runs the driver in shards; returns a list of trace directories."""
        d = os.path.join(self.tmp, "tr-" + job)
        os.makedirs(d, exist_ok=True)
        e = env()
        e["THEMA_CLI"] = os.path.join(self.tmp, "thema")
        e["VH_MOD"] = self.tmp
        e.update(env_extra or {})

        def one(i):
            cmd = [vh] + args + ["-shard", str(i), "-of", str(SHARDS), "-out", d, "-tag", job + "/"]
            try:
                r = sh(cmd, env=e, cwd=self.tmp, timeout=820)
            except subprocess.TimeoutExpired:
                raise Broken("the driver ran out of time on " + job)
            if r.returncode == 0:
                return
            if r.returncode == 3 or not os.path.exists(os.path.join(d, "scen-%d.ndjson" % i)):
                raise Broken("driver: " + r.stdout[-2000:])
            # the process died: that is an observation about the last scenario
            self.died(d, i, r)
        list(self.pool.map(one, range(SHARDS)))
        return d

    def died(self, d, i, r):
        scen = [l for l in open(os.path.join(d, "scen-%d.ndjson" % i)) if l.strip()]
        tr = os.path.join(d, "trace-%d.ndjson" % i)
        # the last line of the trace may be cut off
        lines = [l for l in open(tr, errors="replace").read().split("\n") if l]
        good = []
        for l in lines:
            try:
                json.loads(l)
                good.append(l)
            except ValueError:
                break
        open(tr, "w").write("".join(l + "\n" for l in good))
        s = json.loads(scen[-1]) if scen else {"id": "?"}
        msg = r.stdout[-1500:]
        m = re.search(r"(fatal error: .*|panic: .*)", r.stdout)
        self.mismatches.append((["crash"], {"e": "crash", "r": "panic", "msg": (m.group(1) if m else msg)[:400], "sid": s["id"]}, s))

    def judge(self, dirs):
        """Checks the recorded traces against the specification."""
        def one(i):
            path = os.path.join(self.tmp, "trace-%d.ndjson" % i)
            scens = {}
            n = ev = 0
            with open(path, "wb") as w:
                for d in dirs:
                    p = os.path.join(d, "trace-%d.ndjson" % i)
                    if os.path.exists(p):
                        with open(p, "rb") as f:
                            shutil.copyfileobj(f, w)
                    p = os.path.join(d, "scen-%d.ndjson" % i)
                    if os.path.exists(p):
                        for l in open(p):
                            if l.strip():
                                n += 1
                                scens[re.search(r'"id":"([^"]*)"', l).group(1)] = l
            lines = open(path).read().split("\n")
            if lines and lines[-1] == "":
                lines.pop()
            if not lines:
                return 0, 0, 0, 0, []
            txt = self.tlc("Trace", "Trace.cfg", "Trace.tla", 1, {"TRACE": path})
            found = {}
            for m in re.finditer(r'<<"MISMATCH", (\d+), "(\w+)", \{([^}]*)\}>>', re.sub(r"\n\s*", " ", txt)):
                found[int(m.group(1))] = re.findall(r'"([^"]+)"', m.group(3))
            m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", txt)
            if not m or "No error has been found" not in txt:
                open(os.path.join(self.tmp, "tlc-%d.out" % i), "w").write(txt)
                why = "trace check: " + (re.search(r"Error:(.|\n)*", txt) or re.search(r"(?s).*", txt)).group(0)[:2500]
                if not found:
                    raise Broken(why)
                # the trace left the specification before that
                self.cut.append(why)
            mm = []
            for l, asp in sorted(found.items()):
                e = json.loads(lines[l - 1])
                mm.append((asp, e, json.loads(scens.get(e.get("sid"), "{}"))))
            for l in lines:
                k = re.search(r'"e":"(\w+)"', l).group(1)
                rr = re.search(r'"r":"(\w+)"', l)
                k = k + ":" + (rr.group(1) if rr else "-")
                tally[k] = tally.get(k, 0) + 1
            return n, len(lines), int(m.group(2)) if m else 0, int(m.group(1)) if m else 0, mm
        tally = self.tally
        for n, ev, st, gen, mm in self.pool.map(one, range(SHARDS)):
            self.scenarios += n
            self.events += ev
            self.states += st
            self.transitions += gen
            self.mismatches += mm

    # -- the verdict -------------------------------------------------------

    def relevant(self, aspects, ev):
        tags = self.cfg["tags"]
        hit = []
        for k in (ev["e"], "*"):
            want = tags.get(k)
            if want is None:
                continue
            for a in aspects:
                # the evaluator's known blind spots count where they are pinned down
                if a.endswith("-evaluator") and not str(ev.get("sid", "")).startswith("file-known/"):
                    continue
                if want == "*" or a in want or any(w.endswith("*") and a.startswith(w[:-1]) for w in want):
                    hit.append(a)
        return hit

    def main(self):
        t0 = time.time()
        tierjobs = self.cfg["quick"] if self.tier == "quick" else self.cfg["thorough"]
        vh = None
        dirs, need_vh = [], [j for j in tierjobs if j[0] != "design"]
        with cf.ThreadPoolExecutor(4) as ex:
            bf = ex.submit(build_all, self.tmp, self.cfg) if need_vh else None
            models = {j: ex.submit(self.explore, j[0], j[1]) for j in tierjobs if j[0] in ("mc", "world", "model")}
            vh = bf.result() if bf else None
            files = {j: f.result() for j, f in models.items()}
        for n, j in enumerate(tierjobs):
            if j[0] in ("mc", "world", "model"):
                if os.path.exists(files[j]) and os.path.getsize(files[j]):
                    dirs.append(self.drive(vh, "%s-%s" % (j[0], j[1]), ["exec", "-i", files[j]]))
            elif j[0] == "fuzz":
                seeds = j[3] if len(j) > 3 else 1
                for s in range(seeds):
                    dirs.append(self.drive(vh, "%s-%d" % (j[1], self.seed + s),
                                           ["fuzz", "-profile", j[1], "-n", str(j[2]), "-seed", str(self.seed + s)]))
            elif j[0] == "file":
                dirs.append(self.drive(vh, "file-" + j[1], ["exec", "-i", os.path.join(HERE, "scenarios", j[1] + ".ndjson")]))
        self.judge(dirs)
        known = load_known(self.prop)
        status = 0
        fresh, listed = [], {}
        for asp, ev, sc in self.mismatches:
            hit = self.relevant(asp, ev)
            if not hit:
                k = "elsewhere %s:%s" % (ev["e"], ",".join(asp))
                self.tally[k] = self.tally.get(k, 0) + 1
                continue
            sid = str(ev.get("sid", ""))
            kf = next((k for k in known if sid == k["scenario"] and set(hit) <= set(k["aspects"]) and ev.get("i") in k["steps"]), None)
            if kf:
                listed[kf["what"]] = kf
            else:
                fresh.append((hit, ev, sc))
        if self.cut and not fresh:
            raise Broken(self.cut[0])
        for w in listed:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        if fresh:
            status = 1
            self.report(fresh)
        self.evidence(time.time() - t0, len(fresh), listed)
        print("%s %s: %d model and trace states, %d histories (%d operations) run against the code, %d violations, %.0f s" %
              (self.prop, self.tier, self.states, self.scenarios, self.events, len(fresh), time.time() - t0))
        return status

    def report(self, fresh):
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        n = 0
        fresh.sort(key=lambda x: len(json.dumps(x[2])))
        for hit, ev, sc in fresh:
            key = (ev["e"], tuple(hit))
            if key in seen:
                continue
            seen.add(key)
            n += 1
            p = os.path.join(rd, "%s-%d.json" % (self.prop, n))
            with open(p, "w") as f:
                json.dump({"property": self.prop, "aspects": hit, "event": ev, "scenario": sc}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  %s: %s; observed %s" % (ev["e"], ", ".join(hit), json.dumps({k: v for k, v in ev.items() if k != "lin"})[:600]))
            if n >= 10:
                break

    def evidence(self, wall, viol, listed):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        for d in sorted(glob.glob(os.path.join(self.tmp, "tr-*")))[:3]:
            for p in sorted(glob.glob(os.path.join(d, "scen-*.ndjson")))[:1]:
                l = open(p).readline()
                if l:
                    self.samples.append(json.loads(l) if len(l) < 6000 else {"scenario": l[:6000]})
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.scenarios, "operations_validated": self.events,
               "models": self.models, "operations_by_outcome": dict(sorted(self.tally.items())),
               "samples": self.samples or ["none"]}
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
             "assumptions": self.cfg.get("assumptions", []) + ["TLC and the Go toolchain are correct", "the driver renders schemas and data of the model faithfully (harness/abs)"],
             "wall_s": round(wall, 2), "violations": viol}
        if listed:
            cov["known_findings"] = list(listed)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1)

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        if not self.keep:
            shutil.rmtree(self.tmp, ignore_errors=True)


def load_known(prop):
    p = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def replay(path):
    x = json.load(open(path))
    r = Run(x["property"], "quick", 1)
    try:
        vh = build_all(r.tmp, r.cfg)
        f = os.path.join(r.tmp, "one.ndjson")
        open(f, "w").write(json.dumps(x["scenario"]) + "\n")
        global SHARDS
        SHARDS = 1
        r.judge([r.drive(vh, "replay", ["exec", "-i", f])])
        bad = [(r.relevant(a, e), e) for a, e, _ in r.mismatches if r.relevant(a, e)]
        for a, e in bad:
            print(", ".join(a), json.dumps(e)[:2000])
        if bad:
            print("VIOLATION property=%s replay=%s" % (x["property"], path))
        return 1 if bad else 0
    finally:
        r.close()


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    prop, tier, seed, keep = None, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1), None
    i = 0
    while i < len(argv):
        if argv[i] == "--tier":
            i += 1
            tier = argv[i]
        elif argv[i] == "--seed":
            i += 1
            seed = int(argv[i])
        elif argv[i] == "--keep":
            i += 1
            keep = argv[i]
        else:
            prop = argv[i]
        i += 1
    if prop not in PROPS:
        print("usage: check.py PROPERTY [--tier quick|thorough] [--seed N]; properties:", " ".join(PROPS))
        return 2
    r = Run(prop, tier, seed, keep)
    try:
        return r.main()
    except Broken as e:
        print("check failed:", e)
        return 3
    except subprocess.TimeoutExpired as e:
        print("check ran out of time:", e)
        return 3
    finally:
        r.close()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
