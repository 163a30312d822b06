"""The checks: one function per property."""
import itertools
import json

import common
import engine
import families
import gen
import runtime
import syntax
import verdict

DEAD = {"panic", "crash", "hang"}          # a generated function that does not return
BROKEN = DEAD | {"compile", "macro-crash"}  # a grammar accepted by the specification cannot be used at all


# ---- The model ---------------------------------------------------------------
def small(ctx, scope):
    """All the grammars of a small scope, enumerated by TLC, with their verdicts."""
    out = ctx.work.path("small-%s.json" % scope)
    r = common.tlc(ctx.work, "SmallScope.tla", env={"SCOPE": scope, "OUT": out})
    gs = json.load(open(out))
    for g in gs:
        g["alpha"], g["family"] = "ab", "small-" + scope
    return gs


def machine(ctx, scope, maxlen, every=1):
    """Model checking of the small-step machine on the well-formed, well-typed grammars of a scope."""
    gs = small(ctx, scope)
    p, r = engine.prep(ctx.work, gs)
    acc = [i for i in range(len(gs)) if p[i]["accepted"]]
    if every > 1:
        acc = [i for i in acc if i % every == ctx.seed % every]
    cases = ctx.work.path("machine-%s.json" % scope)
    with open(cases, "w") as f:
        json.dump([engine.strip(gs[i], True, p[i]) for i in acc], f)
    ctx.tlc("PegMachine.tla", env={"CASES": cases, "MAXLEN": str(maxlen)})
    ctx.exhaustive["machine-%s" % scope] = "%s of the %d accepted grammars of %d, every input of {a,b}* of length <= %d" % (
        "all" if every == 1 else "1/%d" % every, len(acc), len(gs), maxlen)
    return gs, p, acc


def theorems(ctx, scope, maxlen, every=1):
    """What the specification implies, on the grammars of a scope."""
    gs = small(ctx, scope)
    if every > 1:
        gs = [g for n, g in enumerate(gs) if n % every == ctx.seed % every]
    cases = ctx.work.path("theorems-%s.json" % scope)
    with open(cases, "w") as f:
        json.dump([engine.strip(g, False) for g in gs], f)
    ctx.tlc("Theorems.tla", env={"CASES": cases, "MAXLEN": str(maxlen)})
    ctx.exhaustive["theorems-%s" % scope] = "%d grammars, every node, position, and input of {a,b}* of length <= %d" % (len(gs), maxlen)


# ---- Campaigns -----------------------------------------------------------------
def absorb_small(ctx, c, fields, keep, post):
    if post:
        post(c)
    ctx.absorb(c, fields, keep)


def exhaustive(ctx, scope, maxlen, fields, every=1, modes=(0, 1), keep=None, post=None, stream="str"):
    """Replay in the code the behaviours of a small scope: all its grammars, all the inputs up to a length."""
    gs = small(ctx, scope)
    if every > 1:
        gs = [g for n, g in enumerate(gs) if n % every == ctx.seed % every]
    c = engine.Campaign(ctx.work, gs, stream=stream, log=ctx.log)
    c.judge()
    c.build(per_bin=60)
    words = ["".join(w) for n in range(maxlen + 1) for w in itertools.product("ab", repeat=n)]
    c.run([(i, r + 1, m, 0, w) for i in c.accepted for r in range(len(gs[i]["rules"])) for w in words for m in modes]).conform()
    ctx.exhaustive["replay-%s" % scope] = "%d grammars judged, %d run on the words of {a,b}* of length <= %d" % (len(gs), len(c.accepted), maxlen)
    ctx.count("grammars", len(gs))
    ctx.count("grammars_accepted_and_run", len(c.accepted))
    ctx.count("runs", len(c.recs))
    absorb_small(ctx, c, fields, keep, post)


def tally(ctx, c):
    kinds = [0, 0, 0, 0]
    for r in c.recs:
        kinds[r.get("kind", 0)] += 1
    ctx.count("runs", len(c.recs))
    for n, what in ((1, "full_matches"), (2, "partial_matches"), (3, "failures")):
        ctx.count(what, kinds[n])
    for r in c.recs[:: max(1, len(c.recs) // 3)][:3]:
        g, rr, m, sk, s = c.jobs[r["id"]]
        ctx.sample({"grammar": c.text(g).splitlines()[3:-2], "rule": "r%d" % rr, "mode": "recognize" if m else "parse", "input": s,
                    "observed": {"kind": r.get("kind"), "position": r.get("cur"), "value": r.get("data")}}, 4)


def campaign(ctx, mix, fields, per_rule=8, stream="str", noise=None, rounds=None, modes=(0, 1), skips=0.0, budget=None, keep=None,
             post=None, longs=0.06, name="", run=True, judge_only=False, headers=None):
    """Rounds of: generate, judge, compile, run, conform."""
    rounds = rounds or ctx.n(1, 40)
    budget = budget or ctx.n(300, 780)
    for k in range(rounds):
        if k and ctx.left(budget) < 0:
            break
        rng = ctx.rng(name, stream, k)
        gs = mix(rng) if callable(mix) else families.build(rng, mix)
        if stream == "vec":  # Rust does not let a user give spans to her own stream
            gs = [g for g in gs if not any(x["k"] == "span" for x in g["x"])]
        c = engine.Campaign(ctx.work, gs, stream=stream, noise=None if noise is None else "%s/%s" % (noise, k), log=ctx.log,
                            headers=headers(rng, gs) if headers else None)
        c.judge()
        ctx.count("grammars", len(gs))
        ctx.count("grammars_accepted", len(c.accepted))
        if not judge_only:
            c.build()
            if run:
                c.run(engine.plan(rng, gs, c.accepted, per_rule, modes=modes, skips=skips, longs=longs)).conform()
                tally(ctx, c)
            else:
                c.recs = []
                c.records = len(c.built)
        else:
            c.recs = []
            c.records = len(gs)
        if post:
            post(c)
        ctx.absorb(c, fields, keep)
        c.clean()
    return c


RECOGNITION = {"cycles": 20, "leftrec": 25, "hollow": 60, "large": 12, "realistic": 10, "struct": 70, "classes": 25, "branches": 25, "prefixes": 40, "calls": 12, "predicates": 25, "loops": 30,
               "recursive": 8, "typed": 20, "wild": 20, "tuples": 6, "errors": 8, "big": 8}


def c01(ctx):
    """Recognition: success and position of every expression."""
    fields = BROKEN | {"success", "position", "kind"}
    if not ctx.quick:
        theorems(ctx, "one", 4)
        theorems(ctx, "two", 3)
    machine(ctx, "one", ctx.n(2, 4))
    if not ctx.quick:
        machine(ctx, "onelit", 4)
        machine(ctx, "two", 3)
        machine(ctx, "wide", 4)
        for s in ("one", "onelit", "two", "wide"):
            exhaustive(ctx, s, 5, fields)
    else:
        exhaustive(ctx, "onelit", 3, fields, every=3)
    campaign(ctx, RECOGNITION, fields, per_rule=14)


def pairs(c):
    """The observed runs that a parser and a recognizer must agree on."""
    by = {}
    for rec in c.recs:
        g, r, m, k, s = c.jobs[rec["id"]]
        by.setdefault((g, r, k, s), {})[m] = rec
    return by


def agreement_keep(c, d):
    """Does the pair of runs disagree ?  (a defect of both sides is not a matter of agreement)"""
    if not hasattr(d, "text"):
        return True
    by = getattr(c, "pairs", None)
    if by is None:
        by = c.pairs = pairs(c)
    p = by.get((d.g, d.rule, d.skip, d.text), {})
    if len(p) < 2 or p[0]["st"] != "ok" or p[1]["st"] != "ok":
        return len(p) < 2 or p[0]["st"] != p[1]["st"]
    a, b = p[0], p[1]
    if a["failed"] != b["failed"] or a["far"] != b["far"] or sorted(map(tuple, a["exp"])) != sorted(map(tuple, b["exp"])):
        return True
    if b["log"] or (not b["failed"] and b["data"] != [6]) or (b["failed"] and b["data"]):
        return True
    return not a["failed"] and a["cur"] != b["cur"]


AGREEMENT = {"cycles": 20, "hollow": 30, "large": 8, "realistic": 8, "tuplecalls": 12, "typed": 60, "branches": 45, "loops": 40, "predicates": 30, "tuples": 25, "spans": 30, "calls": 15, "recursive": 15,
             "prefixes": 25, "classes": 15, "struct": 20, "scopes": 6, "big": 10, "errors": 15}


def c02(ctx):
    """The parser and the recognizer of a rule agree."""
    fields = DEAD | {"success", "position", "farthest", "expected", "kind", "actions", "value"}
    theorems(ctx, "values", ctx.n(2, 3), every=ctx.n(2, 1))
    if not ctx.quick:
        theorems(ctx, "twovalues", 2)
    ms = [("values", ctx.n(2, 3))] + ([] if ctx.quick else [("twovalues", 2)])
    for s, n in ms:
        machine(ctx, s, n)
        exhaustive(ctx, s, ctx.n(3, 4), fields, keep=agreement_keep, every=ctx.n(4, 1))
    campaign(ctx, AGREEMENT, fields, per_rule=12, keep=agreement_keep)


VALUES = {"cycles": 20, "large": 10, "realistic": 10, "tuplecalls": 25, "typed": 70, "branches": 40, "tuples": 45, "loops": 35, "calls": 15, "scopes": 8, "recursive": 20, "predicates": 15,
          "spans": 30, "classes": 10, "big": 20, "prefixes": 20}


def parse_mode(c, d):
    return not hasattr(d, "mode") or d.mode == 0


def c03(ctx):
    """The value built by the parser."""
    fields = BROKEN | {"value", "types"}
    theorems(ctx, "branches", ctx.n(2, 3), every=ctx.n(3, 1))
    machine(ctx, "values", ctx.n(2, 3))
    if not ctx.quick:
        machine(ctx, "twovalues", 2)
        exhaustive(ctx, "values", 4, fields, modes=(0,))
        exhaustive(ctx, "twovalues", 3, fields, modes=(0,))
    else:
        exhaustive(ctx, "values", 3, fields, every=3, modes=(0,))
    campaign(ctx, VALUES, fields, per_rule=14, modes=(0,))


ACTIONS = {"cycles": 10, "hollow": 20, "large": 8, "realistic": 8, "tuplecalls": 15, "typed": 50, "branches": 60, "loops": 45, "predicates": 50, "calls": 20, "spans": 15, "tuples": 25, "recursive": 15,
           "prefixes": 20, "big": 15, "scopes": 5}


def c04(ctx):
    """Which actions are called, in which order, with which arguments."""
    fields = BROKEN | {"actions"}
    machine(ctx, "values", ctx.n(2, 3))
    if not ctx.quick:
        machine(ctx, "twovalues", 2)
        exhaustive(ctx, "values", 4, fields)
        exhaustive(ctx, "twovalues", 3, fields)
    else:
        exhaustive(ctx, "values", 3, fields, every=3)
    campaign(ctx, ACTIONS, fields, per_rule=14)


TYPES = {"cycles": 120, "large": 16, "realistic": 14, "tuplecalls": 20, "typed": 140, "wild": 140, "tuples": 40, "branches": 40, "recursive": 40, "spans": 40, "scopes": 5, "big": 20, "calls": 20,
         "predicates": 20, "loops": 20}


def c05(ctx):
    """The types inferred for the rules, as seen from Rust."""
    fields = {"types", "compile", "macro-crash", "rectype", "incoherent"}
    theorems(ctx, "values", ctx.n(2, 3), every=ctx.n(2, 1))
    if not ctx.quick:
        theorems(ctx, "rec3", 2)
    campaign(ctx, TYPES, fields, run=False)


ERRORS = {"cycles": 15, "hollow": 40, "large": 12, "realistic": 10, "errors": 90, "prefixes": 40, "classes": 25, "predicates": 30, "struct": 50, "loops": 35, "branches": 25, "typed": 25,
          "calls": 12, "recursive": 10, "spans": 10}


def c06(ctx):
    """The error report: farthest failure and expectations."""
    fields = DEAD | {"farthest", "expected"}
    theorems(ctx, "wide", ctx.n(2, 4))
    machine(ctx, "onelit", ctx.n(2, 4))
    if not ctx.quick:
        machine(ctx, "one", 4)
        machine(ctx, "wide", 4)
        for s in ("onelit", "one", "wide", "two"):
            exhaustive(ctx, s, 5, fields)
    else:
        exhaustive(ctx, "wide", 3, fields, every=4)
    campaign(ctx, ERRORS, fields, per_rule=16)


LOOPY = {"cycles": 30, "leftrec": 150, "hollow": 200, "large": 8, "realistic": 8, "struct": 160, "loops": 40, "wild": 120, "recursive": 30, "calls": 15, "predicates": 25, "typed": 20}


def diverging(c, d):
    """Disagreements on verdicts that matter here: a grammar that may diverge is accepted."""
    if d.field in ("verdict-wf", "errors-wf"):
        missing = engine.spec_errors(c.prep[d.g]) - c.verdicts[d.g].errors
        return any(k in ("leftrec", "loop") for k, r in missing)
    return True


def c07(ctx):
    """Accepted grammars terminate."""
    fields = {"hang", "crash", "macro-crash", "verdict-wf", "errors-wf"}
    theorems(ctx, "one", ctx.n(2, 4))
    if not ctx.quick:
        theorems(ctx, "two", 2)
    machine(ctx, "one", ctx.n(2, 4))
    machine(ctx, "two", ctx.n(2, 3), every=ctx.n(4, 1))
    exhaustive(ctx, "one", 4, fields, every=ctx.n(3, 1), keep=diverging)
    if not ctx.quick:
        exhaustive(ctx, "two", 4, fields, keep=diverging)
    campaign(ctx, {"leftrec": 900, "hollow": 300, "cycles": 60, "struct": 200}, fields, judge_only=True, keep=diverging)
    campaign(ctx, LOOPY, fields, per_rule=10, keep=diverging)


def judge_small(ctx, scopes, fields, keep=None, every=1):
    for s in scopes:
        gs = small(ctx, s)
        if every > 1:
            gs = [g for n, g in enumerate(gs) if n % every == ctx.seed % every]
        c = engine.Campaign(ctx.work, gs, log=ctx.log)
        c.judge()
        c.records = len(gs)
        ctx.count("grammars", len(gs))
        ctx.count("grammars_accepted", len(c.accepted))
        ctx.exhaustive["verdicts-" + s] = "%d grammars" % len(gs)
        ctx.absorb(c, fields, keep)
        c.clean()


STRUCTURE = {"cycles": 60, "leftrec": 700, "hollow": 700, "large": 30, "realistic": 40, "struct": 700, "wild": 700, "loops": 60, "predicates": 60, "recursive": 60, "calls": 30, "typed": 100, "prefixes": 60}


def c08(ctx):
    """Ill-formed grammars are refused, each error at its place; the others are not."""
    fields = {"verdict-wf", "errors-wf", "macro-crash"}
    theorems(ctx, "onelit", ctx.n(2, 4))
    if not ctx.quick:
        theorems(ctx, "two", 2)
    judge_small(ctx, ["one", "onelit", "wide"], fields)
    judge_small(ctx, ["two"], fields, every=ctx.n(3, 1))
    campaign(ctx, STRUCTURE, fields, judge_only=True)


LINTS = {"cycles": 20, "leftrec": 50, "hollow": 300, "large": 12, "realistic": 10, "struct": 500, "wild": 600, "loops": 60, "predicates": 60, "chains": 500}


def c09(ctx):
    """Warnings about useless chains of operators."""
    fields = {"lint", "macro-crash"}
    theorems(ctx, "chains", 2, every=ctx.n(3, 1))
    judge_small(ctx, ["chains"], fields)
    judge_small(ctx, ["one"], fields)
    campaign(ctx, LINTS, fields, judge_only=True)


def undefined(ctx, gs):
    """Grammars that call unknown rules: the macro or rustc refuses them."""
    vs, _ = verdict.verdicts(ctx.work, gs)
    ok = [i for i, v in vs.items() if v.accepted]
    if ok:
        for i in verdict.compiles(ctx.work, [gs[i] for i in ok]):
            g = gs[ok[i]]
            text = "\n".join(g["lines"])
            ctx.violation(("undefined", len(text)), "a grammar that calls an unknown rule compiles", {"property": ctx.prop, "what": "undefined rule", "grammar": text})
    ctx.count("undefined", len(gs))


def refused(ctx, gs):
    """Sequences that are not grammars, grammars without rules, with duplicated rules or functions."""
    vs, _ = verdict.verdicts(ctx.work, gs)
    for i, g in enumerate(gs):
        v = vs[i]
        if v.skipped:
            continue
        kinds = {e[0] for e in v.errors}
        bad = None
        if v.crash:
            bad = "the macro panics: " + v.crash[:200]
        elif v.accepted:
            bad = "a sequence of tokens that is not a grammar is accepted (%s)" % g["o"]
        elif g["o"] == "norule" and kinds != {"norule"} or g["o"] == "bad" and kinds != {"syntax"}:
            bad = "refused for another reason: %s %s" % (sorted(v.errors), v.messages[:2])
        elif g["o"] == "dup" and ("duplicate" not in kinds or not g["fdup"] and {("duplicate", r) for r in g["dups"]} != {e for e in v.errors if e[0] == "duplicate"}):
            bad = "duplicates %s, reported: %s %s" % (g["dups"], sorted(v.errors), v.messages[:2])
        if bad:
            text = "\n".join(g["lines"])
            ctx.violation((g["o"], len(text)), bad, {"property": ctx.prop, "what": bad, "grammar": text, "tokens": [x["w"] for x in g["tokens"]]})


def c16(ctx):
    """The concrete syntax."""
    fields = BROKEN | RUNTIME | {"verdict-syntax", "verdict-wf", "verdict-typing", "errors-wf", "errors-typing", "types", "attr"}
    rng = ctx.rng("small")
    for n in range(1, ctx.n(4, 5)):
        seqs, count = syntax.small(rng, n, 1, ctx.seed)
        ctx.exhaustive["tokens-%d" % n] = "%d sequences of %d tokens" % (count, n)
        tokens(ctx, seqs, fields, rng, 6)
    if ctx.quick:
        seqs, count = syntax.small(rng, 4, 8, ctx.seed)
        tokens(ctx, seqs, fields, rng, 6)
    written_classes(ctx, fields)
    for k in range(ctx.n(1, 30)):
        if k and ctx.left(780) < 60:
            break
        rng = ctx.rng("random", k)
        none = [(syntax.write_items(rng, [syntax.tok(t) for t in ts]), "a") for ts in ([], ["item"], ["attr"], ["attr", "item"], ["item", "item"])]
        tokens(ctx, none + [syntax.sequence(rng) for _ in range(ctx.n(2000, 1200))], fields, rng, 6)


def written_classes(ctx, fields):
    """All the short texts of classes, on all the characters around."""
    alpha, n = "-ac", ctx.n(5, 7)
    words = ["".join(w) for k in range(1, n + 1) for w in itertools.product(alpha, repeat=k)]
    words += ["!-", "-!", "!--", "+-/", "--/", "a-é", "é-a", "-é-", "z-a", "a-a", "--", "a--", "a---", "-a-c-"]
    rng = ctx.rng("classes")
    gs = []
    for w in words:
        g = gen.G()
        g.rule("r1", g.add("asc", [g.cls(w)], t="unit"))
        gs.append(engine.as_json(g, family="classes"))
    c = engine.Campaign(ctx.work, gs, log=ctx.log)
    c.judge()
    ctx.exhaustive["classes"] = "%d texts of classes of length <= %d over {-,a,c}, %d accepted, on 8 characters" % (len(words), n, len(c.accepted))
    ctx.count("grammars", len(gs))
    if c.accepted:
        c.build(per_bin=60)
        c.run([(i, 1, 1, 0, x) for i in c.accepted for x in (list("-abcd!é,.") if len(words[i]) < 6 else rng.sample("-abcd", 2))])
        c.conform()
        tally(ctx, c)
    ctx.absorb(c, fields)
    c.clean()


def tokens(ctx, seqs, fields, rng, per_rule):
    gs = syntax.read(ctx, seqs, rng)
    for o in ("ok", "bad", "odd", "norule", "dup", "undef"):
        ctx.count("sequences_" + o, sum(1 for g in gs if g["o"] == o))
    refused(ctx, [g for g in gs if g["o"] in ("bad", "norule", "dup")])
    undefined(ctx, [g for g in gs if g["o"] == "undef"])
    ctx.traces += len(gs)
    good = [g for g in gs if g["o"] == "ok"]
    if not good:
        return
    c = engine.Campaign(ctx.work, good, log=ctx.log)
    c.judge()
    for i, g in enumerate(good):
        v = c.verdicts[i]
        if c.prep[i]["accepted"] and v.accepted and any(w[0] == "attr" for w in v.warnings) != (g["attrs"] > 0):
            c.diffs.append(engine.Diff("attr", i, "unknown attributes: %d, warnings: %s" % (g["attrs"], sorted(v.warnings))))
    # Oak takes the Rust types that users write for equal: rustc refuses `(e > box f):Node`
    def mixed(g):
        sort = {"act": lambda x: "box" if x["box"] else "node", "asc": lambda x: "node" if x["t"] == "rust" else None,
                "span": lambda x: "span", "rng": lambda x: "range"}
        sorts = {sort[x["k"]](x) for x in g["x"] if x["k"] in sort} - {None}
        return len(sorts) > 1 and any(x["k"] == "cho" or x["k"] == "asc" and x["t"] == "rust" for x in g["x"])
    # only the type `Node` exists in the crates of the tests
    def unknown(g):
        q = [x for x in g["tokens"] if x["t"] != "("]
        return any(a["t"] == ":" and b["t"] == "id" and b["s"] != "Node" for a, b in zip(q, q[1:]))

    c.accepted = [i for i in c.accepted if not mixed(good[i]) and not unknown(good[i])]
    if c.accepted:
        c.build()
        c.run(engine.plan(rng, good, c.accepted, per_rule, modes=(0, 1), longs=0.02))
        if c.recs:
            c.conform()
            tally(ctx, c)
    ctx.absorb(c, fields)
    c.clean()


SPANS = {"spans": 220, "typed": 40, "big": 20, "branches": 10}


def c13(ctx):
    """Spans and ranges."""
    fields = BROKEN | {"value", "actions"}
    machine(ctx, "values", ctx.n(2, 3))
    campaign(ctx, SPANS, fields, per_rule=12, skips=0.4, name="str")
    campaign(ctx, SPANS, fields, per_rule=12, skips=0.4, stream="file", name="file")


ANY = {"cycles": 8, "hollow": 15, "large": 10, "realistic": 10, "typed": 30, "struct": 30, "classes": 20, "branches": 15, "prefixes": 25, "calls": 6, "tuples": 8, "predicates": 20, "loops": 20,
       "spans": 20, "errors": 40, "recursive": 6, "big": 6}
RUNTIME = {"success", "position", "farthest", "expected", "value", "actions", "kind", "location", "snippet", "message"}


def c14(ctx):
    """The behaviour does not depend on the stream nor on where it starts."""
    for stream in ("file", "vec"):
        campaign(ctx, ANY, BROKEN | RUNTIME, per_rule=12, skips=0.5, stream=stream)
    campaign(ctx, ANY, BROKEN | RUNTIME, per_rule=10, skips=0.9, stream="str", name="mid")


COMPILE = {"cycles": 60, "hollow": 20, "large": 16, "realistic": 14, "tuplecalls": 20, "typed": 120, "branches": 50, "tuples": 50, "scopes": 12, "big": 60, "calls": 30, "recursive": 30, "spans": 40, "loops": 30,
           "predicates": 20, "prefixes": 20, "classes": 10, "struct": 30, "names": 90}


def c15(ctx):
    """Accepted grammars compile."""
    fields = {"compile", "macro-crash"}
    campaign(ctx, {k: -(-v // 4) for k, v in COMPILE.items()}, fields, run=False, noise=ctx.seed, stream="vec", rounds=ctx.n(1, 4), name="vec")
    campaign(ctx, COMPILE, fields, run=False, noise=ctx.seed)


def c17(ctx):
    """Rules of other grammars."""
    n = ctx.n(130, 260)
    campaign(ctx, lambda rng: families.externals(rng, n), BROKEN | RUNTIME | {"types", "verdict-wf", "verdict-typing"}, per_rule=10, skips=0.1)
    campaign(ctx, lambda rng: families.externals(rng, n // 2), BROKEN | RUNTIME, per_rule=8, skips=0.3, stream="file", name="file")


TYPING = {"cycles": 400, "large": 30, "realistic": 40, "wild": 1100, "typed": 250, "recursive": 120, "branches": 40, "spans": 60, "mistyped": 500}


def c18(ctx):
    """Ill-typed grammars are refused, the others are not."""
    fields = {"verdict-typing", "errors-typing", "macro-crash", "incoherent"}
    judge_small(ctx, ["branches"], fields, every=ctx.n(2, 1))
    judge_small(ctx, ["values", "twovalues"], fields, every=ctx.n(2, 1))
    judge_small(ctx, ["rec3"], fields, every=ctx.n(12, 3))
    campaign(ctx, TYPING, fields, judge_only=True)


def c10(ctx):
    """Streams."""
    kinds = ("str", "file") if ctx.quick else ("str", "string", "file")
    runtime.replay(ctx, runtime.stream_model(ctx, kinds, ctx.n(6, 1)) + runtime.random_streams(ctx, ctx.n(3000, 40000)))


def c11(ctx):
    """Locations, snippets and messages."""
    runtime.replay(ctx, runtime.places(ctx, ctx.n(800, 20000)) + runtime.messages(ctx, ctx.n(2500, 40000)))
    if not ctx.quick:
        campaign(ctx, ERRORS, {"location", "snippet", "message"}, per_rule=10, skips=0.3, rounds=6)


def c12(ctx):
    """The parse state."""
    runtime.replay(ctx, runtime.state_model(ctx, ("str", "file"), ctx.n(9, 1)) + runtime.random_states(ctx, ctx.n(3000, 40000)))


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09,
          "C10": c10, "C11": c11, "C12": c12, "C13": c13,
          "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18}
