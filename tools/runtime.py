"""The runtime library: scripts of operations, from the model or random, replayed on the code and given back to the specification."""
import json
import os
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import common

BASES = [1000, 0, 1, 70000]  # where the file starts in the code map
ALPHA = "ab\n\u00e9\u00c3\r\t \U0001f980\u4e2dz`0\"\\\ufeff\0\u2028\u0301"
WORDS = ["a", "b", "ab", "\u00e9", "\u00c3", "\n", "\r\n", "z", "", "\U0001f980", "a\u00e9", "\ufeff", "\ufeffa", "\0"]
ITEMS = ["a", "b", "[\"0-9\"]", "<character>", "`", "a` or `b", "\u00e9", "or", "\\\"", "{}", "\u0301", ""]


def cps(s):
    return [ord(c) for c in s]


class Script:
    __slots__ = ("what", "kind", "base", "text", "ops", "obs", "lines")

    def __init__(self, what, kind, text, ops):
        self.what, self.kind, self.text, self.ops = what, kind, text, ops
        self.base = BASES[len(text) % len(BASES)] if kind == "file" else 0
        self.obs = self.lines = None

    def line(self, n):
        ops = " ".join("%d,%d,%d,%s" % (c, a, b, w.encode("utf-8").hex()) for c, a, b, w in self.ops)
        return "%d %s %s %d x%s %s\n" % (n, self.what, self.kind, self.base, self.text.encode("utf-8").hex(), ops)

    def record(self):
        return {"what": self.what, "kind": self.kind, "base": self.base, "s": cps(self.text),
                "ops": [[c, a, b, cps(w)] for c, a, b, w in self.ops], "obs": self.obs, "lines": self.lines}


def build(work):
    exe = work.path("runtime")
    p = common.rustc(["-C", "debuginfo=0", "-o", exe, os.path.join(common.ROOT, "harness", "rt", "runtime.rs")])
    if p.returncode != 0:
        raise common.ToolError("cannot compile the harness of the runtime:\n" + common.tail(p.stderr, 30))
    return exe


def lane(work, exe, k, scripts, timeout=10):
    """Run the scripts; those that hang or kill the process are left without observation."""
    done = 0
    while done < len(scripts):
        src, out = work.path("scripts-%d" % k), work.path("obs-%d" % k)
        with open(src, "w") as f:
            for n in range(done, len(scripts)):
                f.write(scripts[n].line(n))
        with open(out, "wb") as o:
            p = subprocess.Popen([exe, src], stdout=o, stderr=subprocess.DEVNULL)
        size, since = -1, time.time()
        while True:
            try:
                p.wait(0.2)
                break
            except subprocess.TimeoutExpired:
                n = os.path.getsize(out)
                if n != size:
                    size, since = n, time.time()
                elif time.time() - since > timeout:
                    p.kill()
                    p.wait()
                    break
        lines = open(out).read().split("\n")[:-1]
        for n, l in enumerate(lines):
            r = json.loads(l)
            scripts[done + n].obs, scripts[done + n].lines = r["obs"], r["lines"]
        done += len(lines)
        if p.returncode == 0 and lines:
            break
        done += 1  # the one that did not end
        if sum(1 for s in scripts[:done] if s.obs is None) > 3:
            break


def replay(ctx, scripts, per=4000):
    """Run scripts and check their observations."""
    exe = ctx.work.path("runtime")
    if not os.path.exists(exe):
        build(ctx.work)
    ctx.rng("order").shuffle(scripts)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda k: lane(ctx.work, exe, k, scripts[k::8]), range(8)))
    for s in scripts:
        if s.obs is None:
            report(ctx, s, "no answer", None)
    ok = [s for s in scripts if s.obs is not None]
    for k in range(0, len(ok), 20000):
        part = ok[k:k + 20000]
        with open(ctx.work.path("runtime.ndjson"), "w") as f:
            for s in part:
                f.write(json.dumps(s.record()) + "\n")
        r = ctx.tlc("ConfRuntime.tla", env={"TRACE": ctx.work.path("runtime.ndjson")}, heap="12g")
        ctx.traces += len(part)
        for w in r.printed:
            s = part[w["n"] - 1]
            report(ctx, s, ", ".join(sorted("%s at %s" % (x[0], x[1]) for x in w["wrong"])), w["wrong"])
    for what in sorted(set(s.what for s in scripts)):
        some = [s for s in ok if s.what == what]
        ctx.count("scripts_" + what, len(some))
        ctx.count("operations_" + what, sum(len(s.ops) for s in some))
        for s in some[:2]:
            ctx.sample({"what": what, "stream": s.kind, "text": s.text, "operations": s.ops[:6]}, 6)


def report(ctx, s, what, detail):
    rep = {"property": ctx.prop, "what": what, "script": s.what, "stream": s.kind, "base": s.base, "text": s.text, "operations": s.ops,
           "observed": s.obs, "detail": detail}
    ctx.violation((what.split(" at ")[0], len(s.ops) * 10 + len(s.text)), "%s of a %s script on %r: %s" % (what, s.what, s.text, s.ops), rep)


# ---- Scripts ---------------------------------------------------------------------
def from_cps(w):
    return "".join(map(chr, w))


def op(o):
    return (o[0], o[1], o[2], from_cps(o[3]))


def words(rng, n):
    return "".join(rng.choice(ALPHA) for _ in range(n))


def stream_model(ctx, kinds, every):
    """Every operation from every state of the model of streams."""
    r = ctx.tlc("StreamModel.tla", workers=1)
    out = []
    for st in r.printed:
        path = [op(o) for o in st["path"]]
        for o in st["ops"]:
            for k in kinds:
                out.append(Script("stream", k, from_cps(st["s"]), path + [op(o)]))
    ctx.exhaustive["streams"] = "every operation from every state of two streams on every text of 3 characters or less (%d scripts)%s" % (
        len(out), "" if every == 1 else ", 1/%d replayed" % every)
    return out if every == 1 else [s for n, s in enumerate(out) if n % every == ctx.seed % every]


def random_streams(ctx, n):
    rng = ctx.rng("streams")
    out = []
    for _ in range(n):
        text = words(rng, rng.choice([0, 1, 3, 6, 12, 30, 60]))
        ops = []
        pos = [0, 0]
        for _ in range(rng.choice([4, 10, 25, 50])):
            r = rng.randrange(2)
            k = rng.random()
            if k < 0.5:
                ops.append((0, r + 1, 0, ""))
                pos[r] = min(len(text), pos[r] + 1)
            elif k < 0.85:
                if rng.random() < 0.6:
                    w = text[pos[r]:pos[r] + rng.randrange(5)]
                    if rng.random() < 0.3:
                        w += rng.choice(WORDS)
                else:
                    w = rng.choice(WORDS)
                if text.startswith(w, pos[r]):
                    pos[r] += len(w)
                ops.append((1, r + 1, 0, w))
            else:
                ops.append((2, r + 1, 2 - r, ""))
                pos[1 - r] = pos[r]
        out.append(Script("stream", rng.choice(["str", "string", "file"]), text, ops))
    return out


def places(ctx, n):
    """Locations: every text of 4 characters or less over {a, e acute, line feed, carriage return}, and longer ones."""
    import itertools
    rng = ctx.rng("places")
    out = []
    for k in range(ctx.n(4, 6)):
        for w in itertools.product("a\u00e9\n\r" if k < 5 else "a\u00e9\n", repeat=k):
            out.append(Script("place", "str", "".join(w), []))
            out.append(Script("place", "file", "".join(w), []))
    ctx.exhaustive["places"] = "every position of the %d texts of %d characters or less over {a, \u00e9, LF, CR}" % (len(out) // 2, ctx.n(3, 4))
    for _ in range(n):
        t = words(rng, rng.choice([5, 8, 12, 20, 30]))
        if rng.random() < 0.3:
            t = "\n".join(t.split("a"))
        if rng.random() < 0.3:
            t += "\n"
        out.append(Script("place", rng.choice(["str", "string", "file"]), t, []))
    # numbers of two and three digits
    for _ in range(n // 40):
        k = rng.randrange(4)
        t = ["\n" * rng.randrange(9, 130), words(rng, rng.randrange(60, 260)), "ab\n" * rng.randrange(9, 60), "a\u00e9" * rng.randrange(5, 120)][k] + words(rng, 6)
        out.append(Script("place", rng.choice(["str", "string", "file"]), t, []))
    return out


def messages(ctx, n):
    rng = ctx.rng("messages")
    out = []
    for _ in range(n):
        t = words(rng, rng.choice([0, 1, 4, 9, 14, 25]))
        if rng.random() < 0.1:
            t = rng.choice(["\n", "b", "\u00e9\n", ""]) * rng.randrange(9, 120) + t
        far = rng.randrange(len(t) + 1)
        pool = ITEMS + [words(rng, 2)]
        size = rng.choice([0, 1, 2, 3, 4, 6])
        if rng.random() < 0.1:
            size = rng.randrange(7, 24)
            pool = pool + [words(rng, rng.randrange(1, 9)) for _ in range(24)]
        items = [rng.choice(pool) for _ in range(size)]
        if rng.random() < 0.5 and items:
            items.append(rng.choice(items))
        out.append(Script("msg", rng.choice(["str", "file"]), t, [(0, far, 0, "")] + [(0, 0, 0, i) for i in items]))
    return out


def state_model(ctx, kinds, every):
    """Every operation from every state of the model of parse states."""
    r = ctx.tlc("StateModel.tla", workers=1)
    text = "a\u00e9"
    out = []
    for n, st in enumerate(r.printed):
        path = [(0, st["start"], 0, "")] + [op(o) for o in st["path"]]
        for m, o in enumerate(st["ops"]):
            if (n + m) % every == ctx.seed % every:
                out.append(Script("state", kinds[(n + m) // every % len(kinds)], text, path + [op(o)]))
    ctx.exhaustive["states"] = "every operation from every one of the %d states of the model%s" % (
        len(r.printed), "" if every == 1 else ", 1/%d of the %d scripts replayed" % (every, sum(len(st["ops"]) for st in r.printed)))
    return out


def random_states(ctx, n):
    """Long histories; they stop at the first rejection of an operation that takes the state."""
    rng = ctx.rng("states")
    out = []
    for _ in range(n):
        text = words(rng, rng.choice([0, 1, 3, 8, 15]))
        ops = [(0, rng.randrange(len(text) + 1), 0, "")]
        failed, data, ty, marks = False, False, 0, 0
        for _ in range(rng.choice([5, 12, 30, 60])):
            c = rng.choice([0, 0, 0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 6, 7, 8, 9])
            # rejections end the script: few of them
            if rng.random() < 0.97:
                if c == 4 and data or c == 5 and (data or not failed) or c == 9 and (failed or not data):
                    continue
            a, b, w = 0, 0, ""
            if c == 1:
                w = rng.choice(WORDS)
            elif c == 2:
                w = rng.choice(ITEMS[:6])
                failed, data = True, False
            elif c == 3:
                if not failed:
                    marks += 1
            elif c in (4, 5):
                if not marks:
                    continue
                a = rng.randrange(marks) + 1
            elif c == 6:
                b = rng.choice([0, 7, 12])
            elif c == 7:
                a = rng.randrange(2)
            elif c == 8 and ty:
                continue
            ops.append((c, a, b, w))
            if c == 4 and data or c == 5 and (data or not failed) or c == 9 and (failed or not data):
                break
            if c in (4, 5):
                failed, data, ty = False, False, 0
            elif c == 6:
                failed, data, ty = False, True, 1 if b else 0
            elif c == 7:
                failed, data, ty = True, False, a
            elif c == 8:
                data = False
            elif c == 9:
                data, ty = False, 0
        else:
            ops.append((rng.choice([10, 10, 10, 11]), 0, 0, ""))
        out.append(Script("state", rng.choice(["str", "string", "file"]), text, ops))
    return out
