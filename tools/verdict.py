"""What the oak! macro says about grammars: rustc runs, diagnostics mapped to grammars and rules."""
import bisect
import json
import os
import re
from concurrent.futures import ThreadPoolExecutor

import common
import emit

ERRORS = [
    ("leftrec", "Left-recursion"), ("never", "will never succeed"), ("always", "always succeed without consuming"),
    ("loop", "Infinite loop"), ("unreach", "Unreachable branch"), ("duplicate", "duplicate definition"),
    ("mismatch", "Type mismatch"), ("expected", "but expected type"), ("noinfer", "could not infer"),
    ("unitaction", "will never be called"), ("norule", "At least one rule"),
]
CHAIN = re.compile(r"of the form `([^`]*)`")
CHAINS = {"!(!e)": ("not", "not"), "&(&e)": ("and", "and"), "!(&e)": ("not", "and"), "&(!e)": ("and", "not"),
          "(e?)?": ("opt", "opt"), "(e+)?": ("opt", "plus"), "(e*)?": ("opt", "star"), "(e+)+": ("plus", "plus"),
          "(e+)*": ("star", "plus"), "(e*)*": ("star", "star")}


class Verdict:
    def __init__(self):
        self.errors = set()      # (kind, rule)      rule is 1-based, 0 when outside of the rules
        self.warnings = set()    # ("chain", outer, inner, rule) or ("rectype", rule) or ("attr", 0)
        self.messages = []       # texts of the errors
        self.panic = False
        self.skipped = False     # not judged (another grammar of the same file made the macro fail)
        self.crash = None        # an unexpected panic of the macro

    @property
    def accepted(self):
        return not self.errors and not self.panic and not self.skipped


def classify(v, level, msg, rule, rewrites=None):
    if level == "error":
        v.messages.append(msg)
        if "panicked" in msg:
            v.panic = True
            return
        for k, key in ERRORS:
            if key in msg:
                v.errors.add((k, rule))
                return
        v.errors.add(("syntax", rule))
    elif level == "warning":
        m = CHAIN.search(msg)
        if m and "chaining" in msg:
            v.warnings.add(("chain",) + CHAINS.get(m.group(1), (m.group(1), "?")) + (rule,))
            r = re.search(r"equivalent one `([^`]*)`", msg)
            if rewrites is not None and r:
                rewrites.append((m.group(1), r.group(1)))
        elif "infinite recursive type" in msg:
            v.warnings.add(("rectype", rule))
        elif "unknown attribute" in msg:
            v.warnings.add(("attr", rule))


def one_file(work, name, mods, prelude, limit=120):
    """mods: list of (key, lines, where).  Returns {key: Verdict}."""
    path = work.path(name + ".rs")
    starts, keys, wheres = [], [], []
    lines = list(prelude)
    for key, ls, where in mods:
        starts.append(len(lines) + 1)
        keys.append(key)
        wheres.append(where)
        lines += ls
    starts.append(len(lines) + 1)
    lines.append("fn main() {}")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    out = {k: Verdict() for k in keys}
    try:
        p = common.rustc(["--error-format=json", "--emit=metadata", "-o", work.path(name + ".meta"), path], timeout=limit)
        dead = p.returncode != 0 and '"level":"error' not in p.stderr
        why = "rustc ends with %d: %s" % (p.returncode, common.tail(p.stderr, 3)[-300:]) if dead else ""
    except common.Timeout:
        dead, why = True, "the macro does not terminate"
    if dead:
        if len(mods) == 1:
            out[keys[0]].crash, out[keys[0]].panic = why, True
            return out, []
        n = (len(mods) + 1) // 2 if len(mods) > 16 else 1
        rew = []
        for k in range(0, len(mods), n):
            o, r = one_file(work, "%s_%d" % (name, k), mods[k:k + n], prelude, max(10, limit // 2))
            out.update(o)
            rew += r
            if any(v.crash for v in o.values()):
                break  # one culprit is enough; the others are taken as judged like the specification
        for key in keys:
            if key not in out or out[key].crash is None and key not in [m[0] for m in mods[:k + n]]:
                out[key].skipped = True
        return out, rew
    rewrites = []
    for line in p.stderr.split("\n"):
        try:
            d = json.loads(line)
        except ValueError:
            continue
        spans = [s for s in d.get("spans", []) if s.get("is_primary")]
        if not spans or d.get("code"):
            continue
        ln = spans[0]["line_start"]
        i = bisect.bisect_right(starts, ln) - 1
        if not 0 <= i < len(keys):
            continue
        rule = wheres[i].get(ln - starts[i], -1) + 1
        v = out[keys[i]]
        classify(v, d["level"], d["message"], rule, rewrites)
        if "panicked" in d["message"]:
            note = " ".join(c["message"] for c in d.get("children", []))
            if "aborting due to previous error" not in note:
                v.crash = note or "panic"
    return out, rewrites


def verdicts(work, gs, prep=None, stream=None, per_file=150, noise=None, only=None, headers=None, texts=None):
    """Verdict of the macro on every grammar of gs (0-based index -> Verdict)."""
    idx = list(range(len(gs))) if only is None else list(only)
    mods = {}
    for i in idx:
        if texts and i in texts:
            mods[i] = texts[i]
        else:
            ar = None
            mods[i] = emit.grammar_mod(gs[i], i, ar, body=False, stream=stream, prelude="struct Node; trait Tok {}",
                                       noise=noise, header=(headers or {}).get(i, ""))
    common.libs()
    per_file = max(10, min(per_file, -(-len(idx) // 8)))
    chunks = [idx[n:n + per_file] for n in range(0, len(idx), per_file)]
    res, rew = {}, []
    pre = ["#![allow(warnings)]"]
    with ThreadPoolExecutor(8) as ex:
        for out, rewrites in ex.map(lambda c: one_file(work, "v%d" % c[0], [(i,) + tuple(mods[i]) for i in c], pre), chunks):
            res.update(out)
            rew += rewrites
    return res, rew


def compiles(work, gs):
    """Indices of the grammars, accepted by the macro, for which rustc has no error of its own."""
    lines, starts = ["#![allow(warnings)]"], []
    for i, g in enumerate(gs):
        starts.append(len(lines) + 1)
        lines += emit.grammar_mod(g, i, None, body=False, prelude="struct Node; trait Tok {}")[0]
    starts.append(len(lines) + 1)
    lines.append("fn main() {}")
    with open(work.path("undef.rs"), "w") as f:
        f.write("\n".join(lines) + "\n")
    p = common.rustc(["--error-format=json", "--emit=metadata", "-o", work.path("undef.meta"), work.path("undef.rs")])
    bad = set()
    for line in p.stderr.split("\n"):
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("level") == "error":
            for s in d.get("spans", []):
                i = bisect.bisect_right(starts, s["line_start"]) - 1
                if 0 <= i < len(gs):
                    bad.add(i)
    return [i for i in range(len(gs)) if i not in bad]
