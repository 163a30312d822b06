"""Generation of Oak grammars (abstract syntax) and of inputs for them.

The abstract syntax is the one of spec/OakAst.tla.  Everything is driven by a
random.Random given by the caller.  Nothing here knows what a grammar means:
the expected verdicts, types, values... are computed by the specification.
"""
import random

ALPHABETS = [
    "abc", "ab", "abc01", "xy+-()", "aé", "a→b", "a𝄞", "ab \n", "a\"\\b", "a'\t", "azAZ09", "[-]^", "aßñ€", "\r\na", "éèa",
    "{}`%", "\ufeffa\u2028", "\0\x7f\u00a0", "\ud7ff\ue000\U0010ffff", "e\u0301\u00e9", "\u0085\x0b a", "ıİiI",
]


def cps(s):
    return [ord(c) for c in s]


class G:
    """A grammar under construction."""

    def __init__(self, name="g"):
        self.rules, self.x, self.fns, self.alpha = [], [], [], "abc"

    def add(self, k, c=(), **kw):
        n = {"k": k, "c": list(c)}
        n.update(kw)
        self.x.append(n)
        return len(self.x)

    def lit(self, s):
        return self.add("lit", s=cps(s))

    def cls(self, s):
        return self.add("cls", s=cps(s))

    def fn(self, kind="fn", ret="Node"):
        self.fns.append({"kind": kind, "ret": ret})
        return len(self.fns)

    def rule(self, name, e):
        self.rules.append({"name": name, "e": e})
        return len(self.rules)

    def json(self):
        return {"rules": self.rules, "x": self.x, "fns": self.fns}


# --------------------------------------------------------------------------
# Typed generation: grammars that are meant to be accepted.
# A target type is "inv", "char", "node", ("opt", T), ("list", T), ("tup", T..).
# --------------------------------------------------------------------------
def rand_class(rng, alpha):
    """Text of a character class: ranges and single characters."""
    out = []
    for _ in range(rng.randint(1, 3)):
        c = rng.choice(alpha)
        if c == "-":
            continue
        if rng.random() < 0.45:
            d = chr(min(0x10FFFF, ord(c) + rng.randint(0, 5)))
            if 0xD800 <= ord(d) <= 0xDFFF or d == "-":
                d = c
            out.append(c + "-" + d)
        else:
            out.append(c)
    s = "".join(out)
    r = rng.random()
    if r < 0.08:
        s = "-" + s
    elif r < 0.16:
        s = s + "-"
    return s or rng.choice([c for c in alpha if c != "-"])


# Types of external rules that can be written in an annotation.
EXT_TYPES = {"char": "char", "node": "Node", "bnode": "Box<Node>", ("list", "char"): "Vec<char>", ("list", "node"): "Vec<Node>",
             ("opt", "char"): "Option<char>", ("tup", "char", "char"): "(char,char)"}


class Typed:
    def __init__(self, rng, nrules=None, size=None, alpha=None, spans=True, actions=True, externals=()):
        self.rng = rng
        self.g = G()
        self.g.alpha = alpha or rng.choice(ALPHABETS)
        self.spans, self.actions = spans, actions
        self.externals = list(externals)
        self.nrules = nrules or rng.choice([1, 1, 2, 2, 3, 3, 4, 5])
        self.size = size or rng.choice([4, 6, 9, 14])

    def rand_type(self, d=2):
        r = self.rng
        k = r.random()
        if d == 0 or k < 0.3:
            return r.choice(["char"] * 5 + ["node"] * 3 + ["bnode"]) if self.actions else "char"
        if k < 0.45:
            return "inv"
        if k < 0.6:
            return ("opt", self.val_type(d - 1))
        if k < 0.78:
            return ("list", self.val_type(d - 1))
        return ("tup",) + tuple(self.comp_type(d - 1) for _ in range(r.choice([2, 2, 3, 4])))

    def val_type(self, d):
        t = self.rand_type(d)
        while t == "inv":
            t = self.rand_type(d)
        return t

    def comp_type(self, d):  # component of a tuple: not itself a tuple (they are flattened)
        t = self.val_type(d)
        while t[0] == "tup":
            t = self.val_type(d)
        return t

    def build(self):
        r = self.rng
        self.rtypes = [self.rand_type() for _ in range(self.nrules)]
        bodies = []
        for i in range(self.nrules):
            self.cur = i
            self.budget = self.size
            must = r.random() < 0.7
            bodies.append(self.alt(self.rtypes[i], must, True, top=True))
        # names: r1.. or other identifiers
        for i, b in enumerate(bodies):
            self.g.rule("r%d" % (i + 1), b)
        return self.g

    def lit(self, must=True):
        r = self.rng
        n = r.choice([1, 1, 1, 2, 2, 3]) if must or r.random() < 0.97 else 0
        return self.g.lit("".join(r.choice(self.g.alpha) for _ in range(n)))

    # An expression of type t.  must: it has to consume.  left: nothing consumed yet in the rule.
    def alt(self, t, must, left, top=False):
        r = self.rng
        self.budget -= 1
        if self.budget > 1 and r.random() < (0.4 if top else 0.22):
            n = r.choice([2, 2, 2, 3, 3, 4])
            bs = [self.seq(t, True, left) for _ in range(n - 1)] + [self.seq(t, must, left)]
            return self.g.add("cho", bs)
        return self.seq(t, must, left)

    def seq(self, t, must, left):
        r = self.rng
        if isinstance(t, tuple) and t[0] == "tup" and not self.g_nt(t, left, probe=True):
            pass
        pre, post = [], []
        if self.budget > 0 and r.random() < 0.35:
            pre.append(self.inv(must and r.random() < 0.5, left))
        consumed = False
        if self.budget > 0 and r.random() < 0.25:
            post_wanted = True
        else:
            post_wanted = False
        # does the prefix consume for sure?
        sure = [self.surely(p) for p in pre]
        left2 = left and not any(sure)
        core = self.core(t, must and not any(sure), left2)
        if post_wanted:
            post.append(self.inv(False, left2 and not all(self.surely(c) for c in core[:1])))
        els = pre + core + post
        if len(els) == 1:
            return els[0]
        return self.g.add("seq", els)

    def surely(self, e):
        """Conservative: does this expression surely consume?"""
        x = self.g.x[e - 1]
        k = x["k"]
        if k == "lit":
            return len(x["s"]) > 0
        if k in ("any", "cls"):
            return True
        if k in ("seq",):
            return any(self.surely(c) for c in x["c"])
        if k == "cho":
            return all(self.surely(c) for c in x["c"])
        if k in ("plus", "act", "asc", "span", "rng"):
            return self.surely(x["c"][0])
        return False

    def g_nt(self, t, left, probe=False):
        """A call of a rule of type t that cannot be left recursive."""
        lo = self.cur + 1 if left else 0
        c = [j for j in range(lo, self.nrules) if self.rtypes[j] == t and (t in ("node", "bnode") or j > self.cur)]
        if not c:
            return None
        if probe:
            return True
        return self.g.add("nt", r=self.rng.choice(c) + 1)

    def core(self, t, must, left):
        """A list of expressions to put in a sequence, whose values make t."""
        r = self.rng
        g = self.g
        self.budget -= 1
        if r.random() < 0.3 and not must:
            n = self.g_nt(t, left)
            if n:
                return [n]
        if r.random() < 0.35 and must:
            n = self.g_nt(t, left)
            if n:  # may or may not consume: the specification decides
                return [n]
        if t == "inv":
            return [self.inv(must, left)]
        ext = [e for e in self.externals if e[2] == t and t in EXT_TYPES]
        if ext and r.random() < 0.5:
            e = r.choice(ext)
            return [g.add("asc", [g.add("ext", g=e[0], r=e[1])], t="rust", s=EXT_TYPES[t])]
        if t == "char":
            k = r.random()
            if k < 0.25:
                return [g.add("any")]
            if k < 0.85 or self.budget <= 0:
                return [g.cls(rand_class(r, g.alpha))]
            return [self.alt("char", must, left)]
        if t in ("node", "bnode"):
            boxed = t == "bnode"
            k = r.random()
            sub = "inv" if k < 0.3 else "char" if k < 0.5 else self.val_type(1)
            inner = self.span_or(sub, must, left)
            k = r.random()
            if k < 0.8:
                return [g.add("act", [inner], fn=g.fn("fn"), box=boxed)]
            # a constructor or a function defined outside of the grammar: the type must be given
            f = g.fn("ctor" if k < 0.9 else "fn", "extn")
            wrap = r.choice(["", "mod", "impl", "impl"])
            if wrap:
                g.fns[f - 1]["wrap"] = wrap
            e = g.add("act", [inner], fn=f, box=boxed)
            return [g.add("asc", [e], t="rust", s="Box<Node>" if boxed else "Node")]
        if t[0] == "opt":
            return [g.add("opt", [self.alt(t[1], True, left)])] if not must else \
                   [self.inv(True, left), g.add("opt", [self.alt(t[1], True, False)])]
        if t[0] == "list":
            body = self.alt(t[1], True, left)
            if must or r.random() < 0.4:
                return [g.add("plus", [body])]
            return [g.add("star", [body])]
        if t[0] == "tup":
            els = []
            for n, u in enumerate(t[1:]):
                m = must and n == 0
                if self.budget > 0 and r.random() < 0.15:
                    els.append(self.inv(False, left))
                els += self.core(u, m, left)
                if any(self.surely(e) for e in els):
                    left = False
            return els
        raise AssertionError(t)

    def span_or(self, t, must, left):
        """Something below an action: maybe with a span (the action is the only place that can name Span)."""
        r = self.rng
        if self.spans and r.random() < 0.2:
            e = self.seq(t, must, left)
            return self.g.add("span" if r.random() < 0.6 else "rng_", [e]) if False else self.mk_span(e)
        return self.alt(t, must, left)

    def mk_span(self, e):
        g = self.g
        if self.rng.random() < 0.6:
            return g.add("span", [e])
        return g.add("rng", [g.add("asc", [e], t="unit")]) if self.rng_ok(e) else g.add("span", [e])

    def rng_ok(self, e):
        """`... e` fails to type when e has nested annotations; keep them rare."""
        return True

    def inv(self, must, left):
        """An expression without value."""
        r = self.rng
        g = self.g
        self.budget -= 1
        k = r.random()
        if self.budget <= 0 or k < 0.45:
            return self.lit(must)
        if must:
            if self.externals and k < 0.55:
                e = r.choice(self.externals)
                return g.add("asc", [g.add("ext", g=e[0], r=e[1])], t=r.choice(["unit", "inv"]))
            if k < 0.6:
                return g.add("plus", [self.inv(True, left)])
            if k < 0.75:
                return g.add("cho", [self.inv(True, left) for _ in range(r.choice([2, 2, 3]))])
            if k < 0.85:
                a = self.inv(True, left)
                return g.add("seq", [a, self.inv(False, left and not self.surely(a))])
            return g.add("asc", [self.alt(self.val_type(1), True, left)], t=r.choice(["unit", "inv"]))
        if k < 0.55:
            return g.add("not", [self.alt(r.choice(["inv", "char", self.val_type(1)]), True, left)])
        if k < 0.63:
            return g.add("and", [self.alt(r.choice(["inv", "char", self.val_type(1)]), True, left)])
        if k < 0.72:
            return g.add("opt", [self.inv(True, left)])
        if k < 0.8:
            return g.add("star", [self.inv(True, left)])
        if k < 0.88:
            n = self.g_nt("inv", left)
            if n:
                return n
        if k < 0.94:
            return g.add("asc", [self.alt(self.val_type(1), False, left)], t=r.choice(["unit", "inv"]))
        return g.add("cho", [self.inv(True, left), self.inv(False, left)])


# --------------------------------------------------------------------------
# Wild generation: any abstract syntax tree, most of them ill-formed or ill-typed.
# --------------------------------------------------------------------------
class Wild:
    KINDS = ["lit"] * 5 + ["any", "cls", "cls", "nt", "nt", "nt", "seq", "seq", "seq", "cho", "cho", "cho",
                           "star", "plus", "opt", "opt", "not", "and", "act", "asc", "asc", "span", "rng"]

    def __init__(self, rng, nrules=None, size=None, alpha="ab", kinds=None, empty_lit=0.15):
        self.rng, self.g = rng, G()
        self.g.alpha = alpha
        self.nrules = nrules or rng.choice([1, 1, 2, 2, 3, 4])
        self.size = size or rng.choice([2, 3, 4, 6, 8])
        self.kinds = kinds or self.KINDS
        self.empty_lit = empty_lit

    def build(self):
        for i in range(self.nrules):
            self.budget = self.size
            self.cur = i
            b = self.expr()
            self.g.rule("r%d" % (i + 1), b)
        return self.g

    def expr(self, where="alt"):
        r, g = self.rng, self.g
        self.budget -= 1
        k = r.choice(self.kinds)
        if self.budget <= 0:
            k = r.choice(["lit", "lit", "any", "cls", "nt"])
        if k == "lit":
            return g.lit("" if r.random() < self.empty_lit else "".join(r.choice(g.alpha) for _ in range(r.choice([1, 1, 2]))))
        if k == "any":
            return g.add("any")
        if k == "cls":
            return g.cls(rand_class(r, g.alpha))
        if k == "nt":
            return g.add("nt", r=r.randint(1, self.nrules))
        if k in ("seq", "cho"):
            return g.add(k, [self.expr() for _ in range(r.choice([2, 2, 2, 3]))])
        if k == "act":
            ret = r.choice(["Node"] * 7 + ["none", "()", "extn"])
            box = r.random() < 0.15
            return g.add("act", [self.expr()], fn=g.fn("fn", ret), box=box)
        if k == "asc":
            t = r.choice(["unit", "inv", "inv", "rust"])
            kw = {"s": "Node"} if t == "rust" else {}
            return g.add("asc", [self.expr()], t=t, **kw)
        if k == "rng":
            return g.add("rng", [g.add("asc", [self.expr()], t="unit")])
        return g.add(k, [self.expr()])


# --------------------------------------------------------------------------
# Inputs
# --------------------------------------------------------------------------
STEPS = [0]  # what is left for a derivation


def derive(rng, gs, gi, i, depth=0, reps=3):
    """A string that expression i of grammar gi (0-based) may match."""
    g = gs[gi]
    x = g["x"][i - 1]
    k = x["k"]
    STEPS[0] -= 1
    if depth > 60 or STEPS[0] < 0:
        return ""
    d = lambda j: derive(rng, gs, gi, j, depth + 1, reps)
    if k == "lit":
        return "".join(map(chr, x["s"]))
    if k == "any":
        return rng.choice(g["alpha"])
    if k == "cls":
        return rand_in_class(rng, "".join(map(chr, x["s"])))
    if k == "nt":
        return derive(rng, gs, gi, g["rules"][x["r"] - 1]["e"], depth + 3, max(1, reps - 1))
    if k == "ext":
        g2 = gs[x["g"] - 1]
        return derive(rng, gs, x["g"] - 1, g2["rules"][x["r"] - 1]["e"], depth + 3, max(1, reps - 1))
    if k == "seq":
        return "".join(d(j) for j in x["c"])
    if k == "cho":
        c = x["c"]
        # deep derivations prefer the shortest-looking branches
        j = rng.choice(c) if depth < 25 else min(c, key=lambda e: size_of(g, e))
        return d(j)
    if k in ("star", "plus"):
        lo = 1 if k == "plus" else 0
        if reps >= 70 and rng.random() < 0.6:  # many iterations, of a short operand
            return "".join(derive(rng, gs, gi, x["c"][0], depth + 1, 2) for _ in range(reps))
        if reps >= 70:
            d = lambda j: derive(rng, gs, gi, j, depth + 1, 3)
        n = rng.choice([lo, lo, 1, 1, 2, reps]) if depth < 25 else lo
        return "".join(d(x["c"][0]) for _ in range(max(lo, n)))
    if k == "opt":
        return d(x["c"][0]) if rng.random() < 0.55 and depth < 25 else ""
    if k in ("not", "and"):
        return ""
    return d(x["c"][0])


def size_of(g, e):
    x = g["x"][e - 1]
    return (5 if x["k"] in ("nt", "ext") else 1) + sum(size_of(g, c) for c in x["c"])


def class_items(s):
    """Bounds of a class, naively (only used to choose interesting characters)."""
    out, n = [], 0
    while n < len(s):
        if n + 2 < len(s) and s[n + 1] == "-":
            out.append((ord(s[n]), ord(s[n + 2])))
            n += 3
        else:
            out.append((ord(s[n]), ord(s[n])))
            n += 1
    return out or [(97, 97)]


def okchr(c):
    return 0 < c <= 0x10FFFF and not 0xD800 <= c <= 0xDFFF


def rand_in_class(rng, s):
    lo, hi = rng.choice(class_items(s))
    c = rng.choice([lo, hi, (lo + hi) // 2])
    return chr(c) if okchr(c) else "a"


def interesting(g):
    cs = set(g["alpha"])
    for x in g["x"]:
        if x["k"] == "lit":
            cs.update(map(chr, x["s"]))
        elif x["k"] == "cls":
            for lo, hi in class_items("".join(map(chr, x["s"]))):
                cs.update(chr(c) for c in (lo - 1, lo, hi, hi + 1) if okchr(c))
    return sorted(cs)


class Costly(Exception):
    pass


def cheap(gs, gi, r, s):
    """Is the run of rule r on s short ?  The cost of a grammar that backtracks may be exponential in the length of its input, for
    the code as for the specification: such inputs are not tried.  (Only an estimation of the number of expressions that are read.)"""
    left = [1500 + 40 * len(s)]

    def run(g, i, p):  # the next position, or -1
        left[0] -= 1
        if left[0] < 0:
            raise Costly()
        x = gs[g]["x"][i - 1]
        k = x["k"]
        if k == "lit":
            w = x["s"]
            return p + len(w) if p + len(w) <= len(s) and all(ord(s[p + n]) == w[n] for n in range(len(w))) else -1
        if k == "any":
            return p + 1 if p < len(s) else -1
        if k == "cls":
            return p + 1 if p < len(s) and any(lo <= ord(s[p]) <= hi for lo, hi in class_items("".join(map(chr, x["s"])))) else -1
        if k == "nt":
            return run(g, gs[g]["rules"][x["r"] - 1]["e"], p)
        if k == "ext":
            return run(x["g"] - 1, gs[x["g"] - 1]["rules"][x["r"] - 1]["e"], p)
        if k == "seq":
            for c in x["c"]:
                p = run(g, c, p)
                if p < 0:
                    return -1
            return p
        if k == "cho":
            for c in x["c"]:
                q = run(g, c, p)
                if q >= 0:
                    return q
            return -1
        if k in ("star", "plus"):
            q = run(g, x["c"][0], p)
            if q < 0:
                return p if k == "star" else -1
            while q > p:
                p, q = q, run(g, x["c"][0], q)
            return p
        if k == "opt":
            return max(p, run(g, x["c"][0], p))
        if k in ("not", "and"):
            return p if (run(g, x["c"][0], p) >= 0) == (k == "and") else -1
        return run(g, x["c"][0], p)

    try:
        run(gi, gs[gi]["rules"][r - 1]["e"], 0)
    except Costly:
        return False
    except RecursionError:
        pass
    return True


def mutate(rng, s, chars):
    s = list(s)
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = rng.random()
        n = rng.randint(0, len(s))
        if k < 0.3:
            s.insert(n, rng.choice(chars))
        elif k < 0.55 and s:
            del s[min(n, len(s) - 1)]
        elif k < 0.8 and s:
            s[min(n, len(s) - 1)] = rng.choice(chars)
        elif k < 0.9:
            s = s[:n]
        else:
            s = s + [rng.choice(chars)]
    return "".join(s)


def inputs(rng, gs, gi, r, n, maxlen=24, longs=0.06):
    """n inputs for rule r (1-based) of grammar gi (0-based)."""
    g = gs[gi]
    chars = interesting(g)
    out = []
    seen = set()
    tries = 0
    loops = any(x["k"] in ("star", "plus") for x in g["x"])
    once = loops and rng.random() < (0.3 if g.get("family") in ("large", "loops") else 0.015)  # one very long input
    while len(out) < n and tries < n * 6:
        tries += 1
        k = rng.random()
        body = g["rules"][r - 1]["e"]
        STEPS[0] = 5000
        if once or k < longs or g.get("family") == "large" and rng.random() < 0.5:
            far = once or rng.random() < (0.4 if g.get("family") == "large" else 0.02)
            s = derive(rng, gs, gi, body, 0, rng.choice([300] if once else [70, 140, 300]) if far else rng.choice([9, 17, 33]))
            lim = 700 if far else 100
        else:
            s = derive(rng, gs, gi, body)
            lim = maxlen
        if k < 0.35:
            pass
        elif k < 0.8:
            s = mutate(rng, s, chars)
        elif k < 0.9:
            s = s + derive(rng, gs, gi, body)
        else:
            s = "".join(rng.choice(chars) for _ in range(rng.randint(0, 6)))
        s = s[:lim]
        once = False
        while s and not cheap(gs, gi, r, s):
            s = s[:len(s) * 3 // 4]
        if s not in seen:
            seen.add(s)
            out.append(s)
    return out


# --------------------------------------------------------------------------
# Concrete syntax
# --------------------------------------------------------------------------
PREC_CHO, PREC_ALT, PREC_SEQ, PREC_TYPED, PREC_PREFIX, PREC_SUFFIX, PREC_ATOM = range(7)


def rust_str(s):
    out = ['"']
    for c in s:
        ch = chr(c)
        if ch == '"' or ch == "\\":
            out.append("\\" + ch)
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\r":
            out.append("\\r")
        elif ch == "\t":
            out.append("\\t")
        elif c < 32 or c == 127:
            out.append("\\u{%x}" % c)
        else:
            out.append(ch)
    out.append('"')
    return "".join(out)


def level(x):
    return {"cho": PREC_CHO, "act": PREC_ALT, "span": PREC_ALT, "rng": PREC_ALT, "seq": PREC_SEQ, "asc": PREC_TYPED,
            "not": PREC_PREFIX, "and": PREC_PREFIX, "star": PREC_SUFFIX, "plus": PREC_SUFFIX,
            "opt": PREC_SUFFIX}.get(x["k"], PREC_ATOM)


def concrete(g, gi, i, prec=PREC_CHO, paths=None, noise=None):
    """Text of expression i at precedence level prec.  paths(g, r): path of an external rule."""
    x = g["x"][i - 1]
    k = x["k"]
    sub = lambda j, p: concrete(g, gi, j, p, paths, noise)
    if k == "lit":
        t = rust_str(x["s"])
    elif k == "any":
        t = "."
    elif k == "cls":
        t = "[" + rust_str(x["s"]) + "]"
    elif k == "nt":
        t = g["rules"][x["r"] - 1]["name"]
    elif k == "ext":
        t = paths(x["g"], x["r"])
    elif k == "seq":
        # `e:T (...)` and `e:T !e` would be read as types
        rust = lambda j: g["x"][j - 1]["k"] == "asc" and g["x"][j - 1]["t"] == "rust"
        t = " ".join(sub(j, PREC_ATOM if rust(j) else PREC_TYPED) for j in x["c"])
    elif k == "cho":
        t = " / ".join(sub(j, PREC_ALT) for j in x["c"])
    elif k in ("star", "plus", "opt"):
        t = sub(x["c"][0], PREC_ATOM) + {"star": "*", "plus": "+", "opt": "?"}[k]
    elif k in ("not", "and"):
        t = {"not": "!", "and": "&"}[k] + sub(x["c"][0], PREC_SUFFIX)
    elif k == "act":
        # the operand of an action: a sequence, maybe spanned
        c = g["x"][x["c"][0] - 1]["k"]
        t = sub(x["c"][0], PREC_ALT if c in ("span", "rng") else PREC_SEQ)
        t += " > " + ("box " if x["box"] else "") + fn_path(g, x["fn"])
    elif k == "asc":
        t = sub(x["c"][0], PREC_PREFIX) + {"unit": ":()", "inv": ":(^)", "rust": ":" + x.get("s", "")}[x["t"]]
    elif k == "span":
        t = ".. " + sub(x["c"][0], PREC_SEQ)
    elif k == "rng":
        # the annotation below `...` is implicit
        t = "... " + sub(g["x"][x["c"][0] - 1]["c"][0], PREC_SEQ)
    else:
        raise AssertionError(k)
    lv = level(x)
    # a sequence of one element, e.g. the operand of `..`, can be anything of a higher level
    if lv < prec or (noise and noise.random() < 0.05):
        t = "(" + t + ")"
    return t


def fn_name(g, f):
    """Name of the function, or of the constant, of an action."""
    fn = g["fns"][f - 1]
    return fn.get("path") or (("A%d" if fn["kind"] == "ctor" else "f%d") % f)


def fn_path(g, f):
    """How an action is written."""
    wrap = g["fns"][f - 1].get("wrap")
    return {"mod": "m%d::" % f, "impl": "Ty%d::" % f}.get(wrap, "") + fn_name(g, f)
