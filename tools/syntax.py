"""Sequences of tokens: written from generated grammars with too many or too few parentheses, mutated, or enumerated; the
specification (OakSyntax) reads them, and what it reads is given to the campaigns."""
import itertools
import json

import common
import families
import gen

UNARY = {"star": "*", "plus": "+", "opt": "?", "not": "!", "and": "&"}
PUNCT = ["(", ")", ".", "..", "...", "/", ">", "!", "&", "*", "+", "?", ":", "=", "^", "box"]


def tok(t, s="", w=None):
    return {"t": t, "s": s, "w": w if w is not None else t if t in PUNCT else s}


def spelled(rng, text):
    """A way to write a literal."""
    k = rng.random()
    plain = all(c not in "\"\\\r" for c in text)
    if k < 0.12 and plain:
        return 'r"%s"' % text
    if k < 0.24 and "\r" not in text and '"#' not in text:
        return 'r#"%s"#' % text
    if k < 0.36:
        return '"%s"' % "".join(rng.choice(["\\u{%x}" % ord(c), "\\x%02x" % ord(c) if ord(c) < 128 else c]) for c in text)
    if k < 0.42 and text:
        # a line continuation drops the spaces that follow
        n = rng.randrange(len(text)) + 1
        if n == len(text) or text[n] not in " \t\n\r":
            return gen.rust_str(gen.cps(text[:n]))[:-1] + "\\\n      " + gen.rust_str(gen.cps(text[n:]))[1:]
    return gen.rust_str(gen.cps(text))


def lit(rng, text):
    return tok("lit", gen.cps(text), spelled(rng, text))


def brk(rng, text):
    return tok("brk", gen.cps(text), "[%s]" % spelled(rng, text))


TYPES = {"unit": [tok("("), tok(")")], "inv": [tok("("), tok("^"), tok(")")]}


def ident(name):
    return tok("id", name, name)


def tokens(rng, g, i, prec, loose):
    """Tokens of expression i; `loose`: probability that a parenthesis is forgotten or added."""
    x = g["x"][i - 1]
    k = x["k"]
    sub = lambda j, p: tokens(rng, g, j, p, loose)
    text = "".join(map(chr, x["s"])) if isinstance(x.get("s"), list) else ""
    if k == "lit":
        t = [lit(rng, text)]
    elif k == "any":
        t = [tok(".")]
    elif k == "cls":
        t = [brk(rng, text)]
    elif k == "nt":
        t = [ident(g["rules"][x["r"] - 1]["name"])]
    elif k == "seq":
        t = [y for j in x["c"] for y in sub(j, gen.PREC_TYPED)]
    elif k == "cho":
        t = [y for n, j in enumerate(x["c"]) for y in ([tok("/")] if n else []) + sub(j, gen.PREC_ALT)]
    elif k in ("star", "plus", "opt"):
        t = sub(x["c"][0], gen.PREC_ATOM) + [tok(UNARY[k])]
    elif k in ("not", "and"):
        t = [tok(UNARY[k])] + sub(x["c"][0], gen.PREC_SUFFIX)
    elif k == "act":
        c = g["x"][x["c"][0] - 1]["k"]
        t = sub(x["c"][0], gen.PREC_ALT if c in ("span", "rng") else gen.PREC_SEQ)
        t = t + [tok(">")] + ([tok("box")] if x["box"] else []) + [ident("f0")]
    elif k == "asc":
        if x["t"] == "rust":
            ty = [ident("Node")] if rng.random() < 0.5 else [tok("("), ident("Node"), tok(")")]
        else:
            ty = TYPES[x["t"]]
        t = sub(x["c"][0], gen.PREC_PREFIX) + [tok(":")] + [dict(y) for y in ty]
    elif k == "span":
        t = [tok("..")] + sub(x["c"][0], gen.PREC_SEQ)
    elif k == "rng":
        t = [tok("...")] + sub(g["x"][x["c"][0] - 1]["c"][0], gen.PREC_SEQ)
    else:
        raise AssertionError(k)
    wrap = gen.level(x) < prec
    if rng.random() < loose:
        wrap = not wrap
    return [tok("(")] + t + [tok(")")] if wrap else t


def balanced(q):
    d = 0
    for x in q:
        d += {"(": 1, ")": -1}.get(x["t"], 0)
        if d < 0:
            return False
    return d == 0


BADBRK = ['[]', '[7]', '["a" "b"]', "['a']", '["a"; 2]', '[-]', '["a",]', '[""]']
BAD = ["7", "'c'", ",", "|", "@", "$", "%", "b\"a\"", "1.5", "->", "{}", "#"]


def any_token(rng, q):
    k = rng.random()
    if k < 0.55:
        return tok(rng.choice(PUNCT[2:]))
    if k < 0.72:
        return dict(rng.choice(q))
    if k < 0.8:
        return lit(rng, rng.choice(["a", "b", "", "ab", "\u00e9"]))
    if k < 0.87:
        return brk(rng, "".join(rng.choice("ab-z\u00e9") for _ in range(rng.choice([0, 1, 2, 3, 4]))))
    if k < 0.9:
        return ident(rng.choice(["r1", "r2", "Node", "unknown"]))
    if k < 0.93:
        return tok("badbrk", "", rng.choice(BADBRK))
    if k < 0.96:
        return tok("item")
    if k < 0.98:
        return tok("attr")
    return tok("bad", "", rng.choice(BAD))


def mutate(rng, q):
    for _ in range(20):
        p = [dict(x) for x in q]
        n = rng.randrange(len(p))
        k = rng.random()
        if k < 0.25:
            del p[n]
        elif k < 0.5:
            p.insert(n, any_token(rng, q))
        elif k < 0.6:
            p[n] = any_token(rng, q)
        elif k < 0.7 and n + 1 < len(p):
            p[n], p[n + 1] = p[n + 1], p[n]
        elif k < 0.85:
            m = min(len(p), n + rng.randint(0, 5))
            p[n:m] = [tok("(")] + p[n:m] + [tok(")")]
        elif k < 0.93:
            o = [j for j, x in enumerate(p) if x["t"] == "("]
            c = [j for j, x in enumerate(p) if x["t"] == ")"]
            if o and c:
                a, b = rng.choice(o), rng.choice(c)
                p = [x for j, x in enumerate(p) if j not in (a, b)]
        else:
            a, b = sorted((rng.randrange(len(p)), min(len(p), n + 4)))
            p[a:a] = [dict(x) for x in p[n:b]]
        if p and balanced(p):
            return p
    return q


def write_items(rng, q):
    """Texts of the items and attributes; names of the functions of the actions."""
    f = 0
    for n, x in enumerate(q):
        if x["t"] == "item":
            k = rng.random()
            if k < 0.4:
                x["s"] = "k%d" % (n if rng.random() < 0.93 else 1)
                x["w"] = "pub fn %s() -> i64 { %d }" % (x["s"], n)
            else:
                x["w"] = rng.choice(["pub struct S%d;", "use std::fmt as fmt%d;", "pub const C%d: u8 = 1;", "pub type T%d = u8;", "pub mod m%d {}",
                                     "pub enum E%d { A, B }", "pub trait R%d { fn m(&self) {} }", "pub static V%d: u8 = 2;",
                                     "#[derive(Clone)] pub struct D%d { pub x: u8 }", "const K%d: &str = \"r1 = a\";"]) % n
        elif x["t"] == "attr":
            x["s"], x["w"] = ("known", "#![show_typing]") if rng.random() < 0.3 else ("", rng.choice(["#![show_api]", "#![a::b]", "#![unknown(x = 1)]"]))
        elif x["t"] == "id" and n and (q[n - 1]["t"] == ">" or n > 1 and q[n - 1]["t"] == "box" and q[n - 2]["t"] == ">"):
            f += 1
            x["s"] = x["w"] = "f%d" % f
        elif x["t"] == "id" and x["s"].startswith("f") and x["s"][1:].isdigit():
            x["s"] = x["w"] = "r1"
    return q


MIX = ["struct", "typed", "branches", "loops", "wild", "spans", "tuples", "predicates", "classes", "prefixes", "recursive"]


def sequence(rng):
    while True:
        g = families.FAMILIES[rng.choice(MIX)](rng)
        alpha = g.alpha
        g = g.json()
        if len(g["x"]) <= 60 and not any(x["k"] == "ext" for x in g["x"]):
            break
    loose = rng.choice([0, 0.05, 0.1, 0.2])
    q = []
    for r in g["rules"]:
        if rng.random() < 0.15:
            q.append(tok("item"))
        if rng.random() < 0.06:
            q.append(tok("attr"))
        q.append(ident(r["name"]))
        e = r["e"]
        x = g["x"][e - 1]
        if x["k"] == "asc" and rng.random() < 0.6:
            q.append(tok(":"))
            q += [dict(y) for y in TYPES.get(x["t"], [ident("Node")])]
            e = x["c"][0]
        q.append(tok("="))
        q += tokens(rng, g, e, gen.PREC_CHO, loose)
    if rng.random() < 0.2:
        q.append(tok("item"))
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
        q = mutate(rng, q)
    k = rng.random()
    if k < 0.09:
        rename(rng, q)
    elif k < 0.15:
        names = [x["s"] for n, x in enumerate(q) if x["t"] == "id" and n + 1 < len(q) and q[n + 1]["t"] == "="]
        calls = [x for n, x in enumerate(q) if x["s"] in names and x["t"] == "id" and n and q[n - 1]["t"] not in (">", "box", "::") and (n + 1 == len(q) or q[n + 1]["t"] != "=")]
        if calls:
            x = rng.choice(calls)
            x["s"] = x["w"] = rng.choice(["r0", "r77", x["s"] + "_", "R1"])
    q = write_items(rng, q)
    if 0.15 < k < 0.2:
        # the same function twice
        fs = [x for x in q if x["t"] == "item" and x["s"]]
        if fs:
            x = rng.choice(fs)
            starts = [n for n, y in enumerate(q) if y["t"] == "item" or y["t"] == "id" and n + 1 < len(q) and q[n + 1]["t"] == "="]
            q.insert(rng.choice(starts + [len(q)]), dict(x))
    return q, alpha


def rename(rng, q):
    """Some rules with the same name."""
    heads = [x for n, x in enumerate(q) if x["t"] == "id" and n + 1 < len(q) and q[n + 1]["t"] == "="]
    if len(heads) == 1:
        q += [dict(heads[0]), tok("="), lit(rng, "a")]
    else:
        a = rng.choice(heads[:2] + heads)["s"] if heads else None
        for x in rng.sample(heads, min(len(heads), rng.choice([1, 1, 2]))):
            x["s"] = x["w"] = a


def small(rng, n, every, seed):
    """All the sequences of n tokens as the body of a rule, with a second rule behind."""
    a = [lambda: lit(rng, "a"), lambda: tok("."), lambda: tok("("), lambda: tok(")"), lambda: tok("/"), lambda: tok(">"), lambda: ident("r2"),
         lambda: tok("!"), lambda: tok("*"), lambda: tok("?"), lambda: tok(".."), lambda: tok(":"), lambda: tok("="), lambda: brk(rng, "ab")]
    out, count = [], 0
    for w in itertools.product(a, repeat=n):
        q = [ident("r1"), tok("=")] + [f() for f in w]
        if not balanced(q):
            continue
        count += 1
        if count % every == seed % every:
            out.append((write_items(rng, q + [ident("r2"), tok("="), lit(rng, "b")]), "ab"))
    return out, count


def written(rng, q, starts=()):
    """Lines of a sequence of tokens, and the rule of each line."""
    lines, where = [""], {}
    rule = None
    for n, x in enumerate(q):
        if n + 1 in starts:
            rule = starts.index(n + 1)
            lines.append("")
        elif rng.random() < 0.04:
            lines.append(rng.choice(["", "// r9 = \"x\"", "/* a / b */"]))
            if rule is not None:
                where[len(lines) - 1] = rule
            lines.append("")
        if rule is not None:
            where[len(lines) - 1] = rule
        parts = x["w"].split("\n")
        glue = " " if x["t"] in PUNCT or rng.random() < 0.7 or (n and q[n - 1]["t"] not in ("(", ")")) else ""
        lines[-1] += glue + parts[0]
        for p in parts[1:]:
            lines.append(p)
            if rule is not None:
                where[len(lines) - 1] = rule
    return lines, where


def flatten(rules):
    """Trees to nodes."""
    x, fns = [], {}

    def go(e):
        cs = [go(c) for c in e["c"]]
        n = {"k": e["k"], "c": cs}
        if e["k"] == "call":
            n["k"], n["r"] = "nt", 1 + [r["name"] for r in rules].index(e["name"])
        elif e["k"] == "act":
            n["fn"], n["box"] = int(e["name"][1:]), e["box"]
            fns[n["fn"]] = 1
        for key in ("s", "t"):
            if key in e:
                n[key] = e[key]
        x.append(n)
        return len(x)

    out = [{"name": r["name"], "e": go(r["e"])} for r in rules]
    return out, x, [{"kind": "fn", "ret": "Node"} for _ in range(max(fns, default=0))]


def read(ctx, seqs, rng):
    """The sequences, as read by the specification."""
    with open(ctx.work.path("tokens.json"), "w") as f:
        json.dump([[{"t": x["t"], "s": x["s"]} for x in q] for q, a in seqs], f)
    r = common.tlc(ctx.work, "ReadSyntax.tla", env={"CASES": ctx.work.path("tokens.json")})
    ctx.states += r.distinct
    ctx.transitions += r.generated
    out = [None] * len(seqs)
    for p in r.printed:
        out[p["n"] - 1] = p["r"]
    if any(o is None for o in out):
        raise common.ToolError("ReadSyntax did not read every sequence")
    gs = []
    for (q, alpha), o in zip(seqs, out):
        g = {"o": o["o"], "dups": sorted(o["dups"]), "fdup": o["fdup"], "attrs": o["attrs"], "alpha": alpha, "rules": [], "x": [], "fns": [],
             "tokens": q, "family": "tokens"}
        starts = [r["at"] for r in o["rules"]]
        g["lines"], g["where"] = written(rng, q, starts)
        if o["o"] == "ok":
            g["rules"], g["x"], g["fns"] = flatten(o["rules"])
            g["first"] = rng.random() < 0.5
        items = [x for x in q if x["t"] == "item" and x["s"]]
        g["keeps"] = sorted({x["s"] for x in items})
        gs.append(g)
    return gs
