"""Campaigns: generated grammars are judged by the specification and by the macro, compiled, run on inputs, and the
recorded runs are given back to the specification."""
import json
import os
import random
import time
from concurrent.futures import ThreadPoolExecutor

import common
import emit
import gen
import runner
import verdict


TYPE_TOKENS = {"char": [1], "Node": [7], "Box<Node>": [10, 7], "Vec<char>": [4, 1], "Vec<Node>": [4, 7], "Option<char>": [2, 1],
               "(char,char)": [5, 2, 1, 1]}


def strip(g, use, p=None):
    """What the specification reads of a grammar; with its verdict p, the nodes have their types and intervals."""
    x = [dict(n) for n in g["x"]]
    if p and p["accepted"]:
        for i, n in enumerate(x):
            n["u"] = p["unit"][i]
            if n["k"] == "cls":
                n["iv"] = p["iv"][i]
    return {"rules": [{"name": r["name"], "e": r["e"]} for r in g["rules"]], "x": x, "fns": g["fns"], "use": use}


def as_json(g, **kw):
    j = g.json()
    j["alpha"] = g.alpha
    j.update(kw)
    return j


def prep(work, gs):
    """Verdicts of the specification on every grammar."""
    with open(work.path("cases.json"), "w") as f:
        json.dump([strip(g, False) for g in gs], f)
    r = common.tlc(work, "Prep.tla", env={"CASES": work.path("cases.json")})
    out = [None] * len(gs)
    for p in r.printed:
        out[p["n"] - 1] = p
    if any(p is None for p in out):
        raise common.ToolError("Prep did not judge every grammar")
    for i, p in enumerate(out):
        p["accepted"] = p["cls"] and p.get("wf", False) and p.get("ty", False)
        if p["accepted"]:
            card = p["card"]
            # arity of the action called by node n (0-based): what its operand provides
            p["card_of_act"] = [card[x["c"][0] - 1] if x["k"] == "act" else 0 for x in gs[i]["x"]]
    return out, r


def spec_errors(p):
    if not p["cls"]:
        return {("syntax", 0)}
    return {tuple(e) for e in p["errs"]}


def spec_warnings(p):
    if not (p["cls"] and p["wf"]):
        return set()
    return {("chain",) + tuple(l) for l in p["lint"]} | {("rectype", q) for q in p["warn"]}


class Diff:
    """A disagreement between the specification and the code."""

    def __init__(self, field, g, what, **kw):
        self.field, self.g, self.what = field, g, what
        self.__dict__.update(kw)


class Campaign:
    """One set of grammars, from generation to conformance."""

    def __init__(self, work, gs, stream="str", noise=None, headers=None, log=None):
        self.work, self.gs, self.stream, self.noise_seed, self.headers = work, gs, stream, noise, headers or {}
        self.diffs = []
        self.states = self.transitions = 0
        self.log = log or (lambda *a: None)
        self.records = 0

    def noise(self, k):
        return None if self.noise_seed is None else random.Random("%s/%s" % (self.noise_seed, k))

    def judge(self, compare=True):
        """Verdicts: specification and macro."""
        t = time.time()
        self.prep, r = prep(self.work, self.gs)
        self.states += r.distinct
        self.transitions += r.generated
        self.log("prep %d grammars %.1fs" % (len(self.gs), time.time() - t))
        t = time.time()
        self.verdicts, self.rewrites = verdict.verdicts(self.work, self.gs, noise=self.noise("v"), headers=self.headers)
        self.log("macro %.1fs" % (time.time() - t))
        ok = [p["accepted"] and self.verdicts[i].accepted for i, p in enumerate(self.prep)]
        for i, g in enumerate(self.gs):  # the grammars called come first
            ok[i] = ok[i] and all(ok[j] for j in g.get("needs", [])) and self.annotations_hold(g)
            ok[i] = ok[i] and max(self.prep[i]["card"]) <= 72 and not self.prep[i]["mixed"]  # the tuples known by the prelude
        self.accepted = [i for i, o in enumerate(ok) if o]
        if compare:
            for i, p in enumerate(self.prep):
                self.compare(i, p, self.verdicts[i])
        return self

    def annotations_hold(self, g):
        """Are the annotations of the external rules their types ?  (rustc refuses the grammar otherwise)"""
        for x in g["x"]:
            if x["k"] == "asc" and x["t"] == "rust" and g["x"][x["c"][0] - 1]["k"] == "ext":
                e = g["x"][x["c"][0] - 1]
                if self.prep[e["g"] - 1]["types"][e["r"] - 1] != TYPE_TOKENS.get(x["s"]):
                    return False
        return True

    def compare(self, i, p, v):
        if v.skipped:
            return
        if v.crash:
            self.diffs.append(Diff("macro-crash", i, "the macro panics: " + v.crash[:300]))
            return
        if v.accepted != p["accepted"]:
            want = sorted(spec_errors(p)) if not p["accepted"] else "accepted"
            got = "accepted" if v.accepted else sorted(v.errors)
            stage = "syntax" if not p["cls"] else "wf" if not p["wf"] else "typing" if not p["ty"] else None
            if stage is None:  # refused by the macro only: which analysis refuses ?
                kinds = {e[0] for e in v.errors}
                stage = ("wf" if kinds & {"leftrec", "never", "always", "loop", "unreach"} else
                         "typing" if kinds & {"mismatch", "expected", "noinfer", "unitaction"} else "syntax")
            self.diffs.append(Diff("verdict-" + stage, i, "specification: %s, macro: %s %s" % (want, got, v.messages[:2])))
            return
        if p["cls"] and v.errors != spec_errors(p):
            kinds = {e[0] for e in v.errors ^ spec_errors(p)}
            stage = "wf" if not p["wf"] else "typing"
            self.diffs.append(Diff("errors-" + stage, i, "specification: %s, macro: %s %s" % (
                sorted(spec_errors(p)), sorted(v.errors), v.messages[:2])))
        if p.get("incoherent"):
            self.diffs.append(Diff("incoherent", i, "accepted, but the type of the nodes %s is not the one of their operands" % p["incoherent"]))
        if p["cls"] and p["wf"]:
            sw, vw = spec_warnings(p), {w for w in v.warnings if w[0] != "attr"}
            if {w for w in sw if w[0] == "chain"} != {w for w in vw if w[0] == "chain"}:
                self.diffs.append(Diff("lint", i, "specification: %s, macro: %s" % (sorted(sw), sorted(vw))))
            if {w for w in sw if w[0] == "rectype"} != {w for w in vw if w[0] == "rectype"}:
                self.diffs.append(Diff("rectype", i, "specification: %s, macro: %s" % (sorted(sw), sorted(vw))))

    def build(self, idx=None, per_bin=12):
        """Compile the accepted grammars; those of a group go together."""
        t = time.time()
        idx = self.accepted if idx is None else idx
        self.built = list(idx)
        n = len(self.built)
        per_bin = max(4, min(per_bin, -(-n // 8)))
        self.runners = runner.build_all(self.work, self.gs, self.prep, self.built, per_bin, stream=self.stream,
                                        noise=self.noise("r"), headers=self.headers)
        self.where = {}
        for r in self.runners:
            for i, msg in r.broken.items():
                self.diffs.append(Diff("compile", i, "the generated code does not compile: " + msg[:400]))
            for i in r.idx:
                self.where[i] = r
            for (g, k), toks in r.types.items():
                want = self.prep[g]["types"][k]
                if toks != want:
                    self.diffs.append(Diff("types", g, "rule %d: type %s, expected %s" % (k + 1, toks, want), rule=k + 1))
        self.log("build %d grammars in %d binaries %.1fs" % (n, len(self.runners), time.time() - t))
        return self

    def run(self, jobs, timeout=10):
        """jobs: list of (g, r, mode, skip, text), g 0-based, r 1-based."""
        t = time.time()
        per = {}
        self.jobs = jobs
        for n, (g, r, m, k, s) in enumerate(jobs):
            if g in self.where:
                per.setdefault(self.where[g].name, []).append((n, g + 1, r, m, k, s))
        rs = {r.name: r for r in self.runners}
        self.recs = []
        with ThreadPoolExecutor(8) as ex:
            for recs in ex.map(lambda kv: rs[kv[0]].run(kv[1], timeout), per.items()):
                self.recs += recs
        self.recs.sort(key=lambda r: r["id"])
        self.log("run %d jobs %.1fs" % (len(self.recs), time.time() - t))
        return self

    def base(self):
        return 1000 if self.stream == "file" else 0

    def conform(self, extra_use=()):
        """Give the recorded runs to the specification."""
        t = time.time()
        used = {self.jobs[r["id"]][0] for r in self.recs} | set(extra_use)
        todo = list(used)
        while todo:
            for j in self.gs[todo.pop()].get("needs", []):
                if j not in used:
                    used.add(j)
                    todo.append(j)
        with open(self.work.path("cases2.json"), "w") as f:
            json.dump([strip(g, True, self.prep[i]) if i in used else {} for i, g in enumerate(self.gs)], f)
        lines = []
        hangs = [r for r in self.recs if r["st"] == "hang"]  # the specification may not end either
        for rec in hangs:
            g, rr, m, k, s = self.jobs[rec["id"]]
            self.diffs.append(Diff("hang", g, "", rule=rr, mode=m, skip=k, text=s, got=rec, expect=None))
        self.recs = [r for r in self.recs if r["st"] != "hang"]
        for rec in self.recs:
            g, r, m, k, s = self.jobs[rec["id"]]
            d = {"g": g + 1, "r": r, "mode": m, "skip": k, "s": [ord(c) for c in s], "base": self.base(), "st": rec["st"]}
            if rec["st"] == "ok":
                for key in ("failed", "succ", "cur", "far", "exp", "data", "log", "kind", "loc", "snip", "msg"):
                    d[key] = rec[key]
            lines.append(json.dumps(d))
        with open(self.work.path("trace.ndjson"), "w") as f:
            f.write("\n".join(lines) + "\n")
        if not lines:
            if hangs:
                return self
            raise common.ToolError("no run was recorded")
        r = common.tlc(self.work, "ConfRun.tla", env={"CASES": self.work.path("cases2.json"), "TRACE": self.work.path("trace.ndjson")})
        if r.distinct < len(lines):
            raise common.ToolError("ConfRun did not read the whole trace")
        self.states += r.distinct
        self.transitions += r.generated
        self.records += len(lines)
        for p in r.printed:
            rec = self.recs[p["n"] - 1]
            g, rr, m, k, s = self.jobs[rec["id"]]
            for w in p["wrong"]:
                self.diffs.append(Diff(w if w != "status" else rec["st"], g, "", rule=rr, mode=m, skip=k, text=s, got=rec,
                                       expect=p["expect"]))
        self.log("conform %d records %.1fs" % (len(lines), time.time() - t))
        return self

    def clean(self):
        """Remove the binaries."""
        for r in getattr(self, "runners", []):
            for f in (r.name, r.name + ".rs", r.name + ".jobs"):
                if os.path.exists(self.work.path(f)):
                    os.unlink(self.work.path(f))

    def text(self, i):
        return "\n".join(emit.grammar_mod(self.gs[i], i, (self.prep[i].get("card_of_act")), stream=runner.STREAMS[self.stream],
                                          noise=None, header=self.headers.get(i, ""))[0])


def plan(rng, gs, accepted, per_rule, modes=(0, 1), skips=0.0, **kw):
    """Jobs on random inputs for every rule of the accepted grammars."""
    jobs = []
    for i in accepted:
        for r in range(1, len(gs[i]["rules"]) + 1):
            for s in gen.inputs(rng, gs, i, r, per_rule, **kw):
                k = rng.randint(1, max(1, len(s))) if s and rng.random() < skips else 0
                for m in modes:
                    jobs.append((i, r, m, k, s))
    return jobs
