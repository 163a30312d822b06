#!/usr/bin/env python3
"""Entry point of the checks:  check.py <property>.  VERIF_TIER and VERIF_SEED come from the environment."""
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402
import engine  # noqa: E402

ASSUMPTIONS = [
    "TLC evaluates the specification correctly",
    "rustc 1.80.0 compiles the generated code correctly",
    "the runner (harness/rt/prelude.rs) reports faithfully what the public API of the runtime shows",
]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.work = common.Work(prop)
        self.violations = []          # (key, description, replay data)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.cover = {}
        self.exhaustive = {}

    def rng(self, *k):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, "/".join(map(str, k))))

    def log(self, *a):
        print("  [%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def left(self, limit):
        """Seconds left of a time budget."""
        return limit - (time.time() - self.t0)

    def count(self, name, k=1):
        self.cover[name] = self.cover.get(name, 0) + k

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, what, replay):
        self.violations.append((key, what, replay))

    def tlc(self, module, env=None, expect_ok=True, **kw):
        """A model-checking run: the properties of the model itself."""
        r = common.tlc(self.work, module, env=env, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.log("TLC %s%s: %d states, %d distinct, %.1fs" % (module, " " + os.path.basename(kw["cfg"]) if kw.get("cfg") else "",
                                                              r.generated, r.distinct, r.wall))
        if expect_ok and not r.ok:
            raise common.ToolError("the specification %s violates its own properties\n%s" % (module, common.tail(r.out, 80)))
        return r

    # -- campaigns ---------------------------------------------------------
    def absorb(self, c, fields, keep=None):
        """Count a campaign and turn its disagreements on the given fields into violations."""
        self.states += c.states
        self.transitions += c.transitions
        self.traces += c.records
        c.states = c.transitions = c.records = 0
        other = {}
        for d in c.diffs:
            if d.field in fields and (keep is None or keep(c, d)):
                self.report(c, d)
            else:
                other[d.field] = other.get(d.field, 0) + 1
        if other:
            self.log("disagreements on what this property does not speak of: %s" % other)
        c.diffs = []

    def report(self, c, d):
        text = c.text(d.g)
        rep = {"property": self.prop, "field": d.field, "what": d.what, "grammar": text, "stream": c.stream}
        what = "%s: %s" % (d.field, d.what) if d.what else d.field
        size = len(text)
        if hasattr(d, "text"):
            rep.update(rule=d.rule, mode="recognize" if d.mode else "parse", skip=d.skip, input=d.text, observed=d.got, expected=d.expect)
            what = "%s differs for rule r%d (%s) on %r" % (d.field, d.rule, rep["mode"], d.text)
            size += len(d.text)
        self.violation((d.field, size), what, rep)

    def finish(self, level):
        known = load_known(self.prop)
        shown = 0
        fresh = []
        for key, what, rep in self.violations:
            hit = [k for k in known if k in json.dumps(rep, ensure_ascii=False)]
            if not hit:
                fresh.append((key, what, rep))
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": dict({"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                              "samples": self.samples or ["(none)"]}, **self.cover),
            "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - self.t0, 1), "violations": len(fresh),
        }
        if self.exhaustive:
            ev["coverage"]["explored_completely"] = self.exhaustive
        os.makedirs(os.path.join(common.ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(common.ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        if fresh:
            fresh.sort(key=lambda v: v[0][-1] if isinstance(v[0], tuple) else 0)
            d = os.path.join(common.ROOT, "target", "replay")
            os.makedirs(d, exist_ok=True)
            seen = {}
            for key, what, rep in fresh:
                f = key[0] if isinstance(key, tuple) else key
                if seen.get(f, 0) >= 2 or shown >= 6:
                    continue
                seen[f] = seen.get(f, 0) + 1
                path = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.tier, shown))
                with open(path, "w") as o:
                    json.dump(rep, o, indent=1, ensure_ascii=False)
                print("  " + what)
                for line in rep.get("grammar", "").splitlines():
                    print("      " + line)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                shown += 1
            print("%d violations" % len(fresh))
            return 1
        print("%s: held on everything explored (%d states, %d runs of the code, %.0f s)" % (
            self.prop, self.states, self.traces, time.time() - self.t0))
        return 0


def load_known(prop):
    """Findings that are listed and not repaired: lines `known: property=<id> <text found in the replay data>`."""
    out = []
    path = os.path.join(common.ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % prop):
                out.append(line.split(" ", 2)[2].strip())
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import checks
    ctx = Ctx(prop, tier, seed)
    try:
        level = checks.CHECKS[prop](ctx)
        code = ctx.finish(level or "model_checking")
    except common.ToolError as e:
        print("ERROR of the check %s: %s" % (prop, e))
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        ctx.work.close()
    sys.exit(code)


if __name__ == "__main__":
    main()
