"""Families of grammars: each one emphasises a part of the language.  A family builds one grammar (gen.G)."""
import gen
import realistic
from gen import Typed, Wild, G, rand_class, cps


def typed(rng, **kw):
    return Typed(rng, **kw).build()


def big(rng):
    return Typed(rng, nrules=rng.choice([1, 2, 4, 7, 12]), size=rng.choice([25, 40])).build()


def wild(rng):
    return Wild(rng, alpha=rng.choice(["ab", "ab", "aé", "a0-"])).build()


def struct(rng):
    """Only the operators that recognise: calls, choices, repetitions, predicates."""
    kinds = ["lit"] * 6 + ["any", "cls", "nt", "nt", "seq", "seq", "seq", "cho", "cho", "cho", "star", "plus", "opt", "not", "and"]
    g = Wild(rng, alpha=rng.choice(["ab", "ab", "abc", "aé", "€a"]), kinds=kinds, empty_lit=0.05, size=rng.choice([4, 6, 9, 13])).build()
    return unit(rng, g)


def unit(rng, g):
    """Annotate rules with () so that the typing never refuses them."""
    for r in g.rules:
        if rng.random() < 0.9:
            r["e"] = g.add("asc", [r["e"]], t=rng.choice(["unit", "inv"]))
    return g


class Base(Typed):
    """A Typed generator used to fill the holes of a hand-made shape."""

    def __init__(self, rng, n=1, size=6, alpha=None, **kw):
        Typed.__init__(self, rng, nrules=n, size=size, alpha=alpha, **kw)
        self.rtypes = ["none"] * n
        self.cur = 0
        self.budget = size

    def act(self, e, box=False):
        return self.g.add("act", [e], fn=self.g.fn("fn"), box=box)

    def fresh(self, n=4):
        self.budget = n
        return self

    def word(self, lo=1, hi=3):
        return "".join(self.rng.choice(self.g.alpha) for _ in range(self.rng.randint(lo, hi)))

    def val(self, n=4, must=True):
        """An expression with a value."""
        return self.fresh(n).alt(self.val_type(1), must, False)

    def finish(self, bodies):
        for i, b in enumerate(bodies):
            self.g.rule("r%d" % (i + 1), b)
        return self.g


def classes(rng):
    """Character classes: many intervals, bounds of every length in bytes, dashes."""
    pool = "azAZ09_-+é\u007f\u0080߿ࠀ\uffff\U00010000\U0010ffff€𝄞\t \n\"\\'\u0001~"
    b = Base(rng, alpha="".join(rng.sample(pool.replace("-", ""), 4)))
    n = rng.choice([1, 2, 3])
    els = []
    for _ in range(n):
        s = ""
        for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
            lo, hi = rng.choice(pool), rng.choice(pool)
            if "-" in (lo, hi):
                continue
            if rng.random() < 0.5:
                if ord(lo) > ord(hi) and rng.random() < 0.9:
                    lo, hi = hi, lo
                s += lo + "-" + hi
            else:
                s += lo
        r = rng.random()
        s = "-" + s if r < 0.2 else s + "-" if r < 0.4 else s
        els.append(b.g.cls(s or "-"))
    k = rng.random()
    e = els[0] if n == 1 else b.g.add("cho" if k < 0.5 else "seq", els)
    if rng.random() < 0.4:
        e = b.g.add(rng.choice(["plus", "opt", "star"]), [e])
    if rng.random() < 0.3:
        e = b.g.add("seq", [b.g.add(rng.choice(["not", "and"]), [b.g.cls(rand_class(rng, b.g.alpha))]), e])
    return b.finish([e])


def branches(rng):
    """Choices with many branches, sharing prefixes, with values or not."""
    b = Base(rng, alpha=rng.choice(["ab", "abc", "aé", "a€"]))
    n = rng.choice([3, 4, 5, 6, 8, 11])
    t = rng.choice(["inv", "char", "node", "node", ("opt", "char"), ("list", "char"), ("tup", "char", "char"), ("tup", "node", ("list", "char"))])
    pre = b.word(0, 2)
    bs = []
    for _ in range(n):
        w = pre[:rng.randint(0, len(pre))] + b.word(1, 2)
        lit = b.g.lit(w)
        if t == "inv":
            e = lit if rng.random() < 0.6 else b.g.add("seq", [lit, b.fresh(2).inv(False, False)])
        else:
            c = b.fresh(3).core(t, False, False)
            e = b.g.add("seq", [lit] + c if rng.random() < 0.7 else c + [lit])
            if t == ("list", "char") and rng.random() < 0.3:
                e = b.g.add("seq", [b.g.lit(w), b.g.add("cho", [e, b.g.add("seq", [b.g.lit("z"), b.g.add("plus", [b.g.add("any")])])])])
        bs.append(e)
    e = b.g.add("cho", bs)
    k = rng.random()
    if k < 0.2:
        e = b.g.add("seq", [b.val(2), e])
    elif k < 0.4:
        e = b.g.add("seq", [e, b.val(2)])
    elif k < 0.6:
        e = b.g.add(rng.choice(["plus", "star", "opt"]), [e])
    elif k < 0.7:
        e = b.act(e)
    elif k < 0.8:
        e = b.g.add("seq", [b.val(2), e, b.g.add("cho", [b.fresh(3).alt("node", True, False) for _ in range(rng.choice([2, 3]))]), b.val(2)])
    return b.finish([e])


def prefixes(rng):
    """Overlapping literals, repetitions of literals, longest against first match."""
    b = Base(rng, alpha=rng.choice(["ab", "aé", "é€", "a𝄞"]))
    w = b.word(2, 5)
    lits = [w[:k] for k in range(1, len(w) + 1)] + [w + w[:1], w[1:]]
    rng.shuffle(lits)
    els = []
    for s in lits[:rng.choice([2, 3, 4])]:
        e = b.g.lit(s)
        k = rng.random()
        if k < 0.25:
            e = b.g.add(rng.choice(["star", "plus", "opt"]), [e])
        elif k < 0.35:
            e = b.g.add(rng.choice(["not", "and"]), [e])
        elif k < 0.45:
            e = b.act(e)
        els.append(e)
    if rng.random() < 0.5:
        els.append(b.g.lit(w * rng.choice([1, 2, 4])))
    k = rng.random()
    if k < 0.35:
        e = unit_e(b.g, b.g.add("cho", els))
    else:
        e = b.g.add("seq", els)
    if rng.random() < 0.4:
        e = b.g.add("seq", [b.g.add("star", [unit_e(b.g, e)]), b.g.lit(b.word(1, 2))])
    return b.finish([e])


def unit_e(g, e):
    return g.add("asc", [e], t="inv")


def calls(rng):
    """Rules that call each other many times, at many depths."""
    n = rng.choice([3, 5, 8, 14])
    b = Base(rng, n=n, alpha=rng.choice(["ab", "abc", "x+()", "aé"]))
    bodies = []
    for i in range(n):
        b.cur = i
        els = []
        k = rng.random()
        later = list(range(i + 1, n))
        if not later:
            els = [b.g.lit(b.word()), b.g.add("any")]
            e = b.act(b.g.add("seq", els))
        elif k < 0.35:  # choice of rules, all nodes
            els = [b.act(b.g.add("seq", [b.g.lit(b.word(1, 1)), b.g.add("nt", r=rng.choice(later) + 1)])) if rng.random() < 0.5
                   else b.g.add("nt", r=rng.choice(later) + 1) for _ in range(rng.choice([2, 3]))]
            e = b.g.add("cho", els)
        else:
            back = rng.random() < 0.5
            els = [b.g.add("nt", r=rng.choice(later) + 1)]
            for _ in range(rng.choice([1, 2, 3])):
                q = rng.random()
                if q < 0.35:
                    els.append(b.g.add("nt", r=rng.choice(later) + 1))
                elif q < 0.55 and back:
                    els += [b.g.lit(b.word(1, 1)), b.g.add("opt", [b.g.add("nt", r=rng.randint(1, n))])]
                elif q < 0.8:
                    els.append(b.g.add(rng.choice(["star", "opt"]), [b.g.add("seq", [b.g.lit(b.word(1, 1)), b.g.add("nt", r=rng.choice(later) + 1)])]))
                else:
                    els.append(b.fresh(2).inv(False, False))
            e = b.act(b.g.add("seq", els), False)
        bodies.append(e)
    return b.finish(bodies)


def tuples(rng):
    """Long sequences of values, nested, many scopes in one rule."""
    b = Base(rng, alpha=rng.choice(["ab", "abc", "aé"]), size=8)
    n = rng.choice([3, 5, 8, 11, 13])
    els = []
    for _ in range(n):
        k = rng.random()
        if k < 0.3:
            els.append(b.g.cls(rand_class(rng, b.g.alpha)) if rng.random() < 0.6 else b.g.add("any"))
        elif k < 0.45:
            els.append(b.g.add(rng.choice(["opt", "star", "plus"]), [b.fresh(3).alt(b.val_type(1), True, False)]))
        elif k < 0.6:
            els.append(b.act(b.fresh(3).alt(rng.choice(["inv", "char", ("tup", "char", "char")]), True, False), rng.random() < 0.3))
        elif k < 0.7:
            els.append(b.g.add("cho", [b.fresh(2).alt(("tup", "char", "node"), True, False) for _ in range(2)]))
        elif k < 0.8:
            els.append(b.fresh(2).inv(False, False))
        else:
            els.append(b.g.add("seq", [b.g.add("any"), b.g.add("opt", [b.g.cls(rand_class(rng, b.g.alpha))])]))
    e = b.g.add("seq", els)
    k = rng.random()
    if k < 0.25:
        e = b.act(e)
    elif k < 0.4:
        e = b.g.add(rng.choice(["opt", "plus"]), [e])
    elif k < 0.5:
        e = b.g.add("seq", [e, b.g.add("plus", [b.g.add("seq", [b.g.add("any"), b.g.lit(b.word(1, 1)), b.g.add("any")])])])
    return b.finish([e])


def tuplecalls(rng):
    """Rules whose values are tuples of several sizes, called in every context."""
    n = rng.choice([2, 2, 3, 4])
    b = Base(rng, n=n, alpha=rng.choice(["ab", "abc", "aé"]), size=6)
    g = b.g

    def comp():
        k = rng.random()
        if k < 0.55:
            return g.add("any") if rng.random() < 0.6 else g.cls(rand_class(rng, g.alpha))
        if k < 0.7:
            return g.add(rng.choice(["opt", "plus", "star"]), [g.cls(rand_class(rng, g.alpha))])
        if k < 0.85:
            return b.act(b.fresh(2).alt("char", True, False))
        return g.lit(b.word(0 if rng.random() < 0.1 else 1, 1))

    later = list(range(2, n + 1))
    call = lambda: g.add("nt", r=rng.choice(later))
    els = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.random()
        r = rng.choice(later)
        if k < 0.25:
            els.append(call())
        elif k < 0.5:
            els.append(b.act(call()))
        elif k < 0.6:
            els.append(g.add(rng.choice(["plus", "opt", "star"]), [call()]))
        elif k < 0.7:
            els.append(g.add(rng.choice(["plus", "opt"]), [g.add("seq", [g.add("any"), call(), g.lit(b.word(1, 1))])]))
        elif k < 0.85:
            els.append(g.add("cho", [g.add("seq", [g.lit(b.word(1, 1)), g.add("nt", r=r)]), g.add("nt", r=r)]))
        elif k < 0.93:
            els.append(b.act(g.add("span", [g.add("seq", [call(), b.fresh(2).alt("char", True, False)])])))
        else:
            els.append(g.add("cho", [b.act(g.add("nt", r=r)), b.act(g.add("seq", [g.add("any"), call()]))]))
    e = g.add("seq", els) if len(els) > 1 else els[0]
    if rng.random() < 0.3:
        e = b.act(e)
    bodies = [e]
    for i in range(2, n + 1):
        els = [g.add("any")] + [comp() for _ in range(rng.choice([1, 2, 3, 3, 4, 5, 6]))]
        if i < n and rng.random() < 0.5:
            els.insert(rng.randint(0, len(els)), g.add("nt", r=rng.randint(i + 1, n)))
        bodies.append(g.add("seq", els))
    return b.finish(bodies)


def scopes(rng):
    """More than 26 scopes of variables in one rule: nested options, lists, actions, choices."""
    b = Base(rng, alpha="ab")
    n = rng.choice([9, 14, 28, 40])

    def nest(d):
        k = rng.random()
        if d <= 0:
            return b.g.cls("ab")
        if k < 0.4:
            return b.g.add(rng.choice(["opt", "opt", "star", "plus"]), [b.g.add("seq", [b.g.lit("a"), nest(d - 1)])])
        if k < 0.7:
            return b.act(b.g.add("seq", [b.g.lit("b"), nest(d - 1)] if rng.random() < 0.5 else [b.g.add("any"), nest(d - 1)]))
        return b.g.add("cho", [b.act(b.g.add("seq", [b.g.lit("aa"), nest(d - 3)])), b.act(nest_must(d - 1))])

    def nest_must(d):
        return b.g.add("seq", [b.g.add("any"), nest(d)])

    els = []
    while n > 0:
        d = rng.randint(1, 5)
        els.append(nest_must(d))
        n -= d + 1
    return b.finish([b.g.add("seq", els) if len(els) > 1 else els[0]])


def predicates(rng):
    """Predicates everywhere, nested, around calls, repetitions and actions."""
    b = Base(rng, n=2, alpha=rng.choice(["ab", "abc", "aé", "\na"]))
    b.rtypes = ["none", "char"]

    def pred(d):
        k = rng.random()
        op = rng.choice(["not", "not", "and"])
        if d == 0 or k < 0.3:
            inner = b.fresh(2).alt(rng.choice(["inv", "char"]), True, False)
        elif k < 0.45:
            inner = b.g.add("seq", [pred(d - 1), b.fresh(2).alt("char", True, False)])
        elif k < 0.6:
            inner = b.g.add("seq", [b.g.add(rng.choice(["star", "opt"]), [b.g.cls(rand_class(rng, b.g.alpha))]), b.g.lit(b.word(1, 1))])
        elif k < 0.7:
            inner = b.act(b.fresh(3).alt("char", True, False))
        elif k < 0.8:
            inner = b.g.add("nt", r=2)
        elif k < 0.9:
            inner = b.g.add("seq", [b.g.lit(b.word(1, 1)), pred(d - 1), b.g.add("any")])
        else:
            inner = b.g.add("cho", [b.g.lit(b.word(1, 2)), b.g.lit(b.word(1, 2))])
        return b.g.add(op, [inner])

    els = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        q = rng.random()
        if q < 0.25:
            els += [b.g.add(rng.choice(["star", "plus"]), [b.g.add("seq", [pred(1), b.g.add("any")])])]
        elif q < 0.4:
            els += [b.g.add("opt", [b.g.add("seq", [pred(2), b.val(2)])])]
        elif q < 0.5:
            els += [b.g.add("cho", [b.act(b.g.add("seq", [pred(2), b.g.lit(b.word())])), b.act(b.g.add("seq", [b.g.lit(b.word()), pred(1)]))])]
        else:
            els += [pred(2), b.val(3)]
    if rng.random() < 0.3:
        els.append(b.g.add("not", [b.g.add("any")]))
    return b.finish([b.g.add("seq", els) if len(els) > 1 else els[0], b.fresh(3).alt("char", True, True)])


def loops(rng):
    """Repetitions: nested, of sequences that fail in the middle, followed by what they contain."""
    b = Base(rng, alpha=rng.choice(["ab", "ab", "aé", "€ab"]))

    def body(d):
        k = rng.random()
        if d == 0 or k < 0.2:
            return rng.choice([lambda: b.g.lit(b.word(1, 2)), lambda: b.g.add("any"), lambda: b.g.cls(rand_class(rng, b.g.alpha))])()
        if k < 0.45:
            return b.g.add("seq", [body(d - 1), b.g.lit(b.word(1, 2))])
        if k < 0.6:
            return b.g.add("seq", [b.g.cls(rand_class(rng, b.g.alpha)), b.g.add(rng.choice(["star", "plus", "opt"]), [body(d - 1)]), b.g.lit(b.word(1, 1))])
        if k < 0.7:
            return b.g.add("plus", [b.g.add("seq", [b.g.lit(b.word(1, 1)), body(d - 1)])])
        if k < 0.85:
            return b.act(b.g.add("seq", [body(d - 1), b.g.add("any")]))
        return b.g.add("cho", [b.act(b.g.add("seq", [b.g.lit(b.word(1, 2)), body(d - 1)])), b.act(b.g.lit(b.word(1, 1)))])

    els = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        els.append(b.g.add(rng.choice(["star", "plus", "plus", "opt"]), [body(rng.choice([0, 1, 2]))]))
        if rng.random() < 0.4:
            els.append(b.g.lit(b.word(1, 2)))
    e = b.g.add("seq", els) if len(els) > 1 else els[0]
    if rng.random() < 0.2:
        e = b.act(e)
    return b.finish([e])


def spans(rng):
    """Spans and ranges, nested in every context."""
    b = Base(rng, n=2, alpha=rng.choice(["ab", "aé€", "a𝄞", "a\n"]))

    def sp(d):
        k = rng.random()
        e = b.fresh(4).seq(rng.choice(["inv", "char", ("list", "char"), ("tup", "char", ("opt", "char"))]), rng.random() < 0.6, False)
        if d > 0 and k < 0.5:
            e = b.g.add("seq", [e, sp(d - 1)] if rng.random() < 0.5 else [sp(d - 1), e])
        if rng.random() < 0.5 and not has_asc(b.g, e):
            return b.act(b.g.add("rng", [b.g.add("asc", [e], t="unit")]))
        return b.act(b.g.add("span", [e]))

    els = []
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.random()
        if k < 0.3:
            els.append(sp(1))
        elif k < 0.5:
            els.append(b.g.add(rng.choice(["star", "opt", "plus"]), [b.g.add("seq", [b.g.lit(b.word(1, 1)), sp(1)])]))
        elif k < 0.65:
            els.append(b.act(b.g.add("span", [b.g.add("seq", [b.g.lit(b.word(1, 1)), b.g.add("star", [b.g.cls(rand_class(rng, b.g.alpha))])])])))
        elif k < 0.75:
            els.append(b.g.add("nt", r=2))
        elif k < 0.85:
            els.append(b.g.add("cho", [sp(0), sp(1)]))
        else:
            els.append(b.val(2))
    r2 = b.act(b.g.add("span", [b.fresh(3).alt("char", True, True)]))
    e = b.g.add("seq", els) if len(els) > 1 else els[0]
    if rng.random() < 0.25:
        e = b.g.add("span", [e])
    return b.finish([e, r2])


def has_asc(g, e):
    x = g.x[e - 1]
    return x["k"] == "asc" or any(has_asc(g, c) for c in x["c"])


def errors(rng):
    """Failures at several positions: the farthest one wins, the expectations of equal positions add up."""
    b = Base(rng, alpha=rng.choice(["ab", "abc", "aé\n", "a\r\n", "a€\n"]))
    w = b.word(2, 4)
    bs = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        pre = w[:rng.randint(0, len(w))]
        els = []
        for ch in pre:
            els.append(b.g.lit(ch) if rng.random() < 0.6 else b.g.cls(rand_class(rng, b.g.alpha)) if rng.random() < 0.5 else b.g.add("any"))
        k = rng.random()
        if k < 0.3:
            els.append(b.g.add(rng.choice(["opt", "star"]), [b.g.lit(b.word(1, 3))]))
        elif k < 0.5:
            els.append(b.g.add(rng.choice(["not", "and"]), [b.g.lit(b.word(1, 2))]))
        els.append(b.g.lit(b.word(1, 2)))
        bs.append(b.g.add("seq", els) if len(els) > 1 else els[0])
    e = b.g.add("cho", bs)
    if rng.random() < 0.4:
        e = b.g.add("seq", [b.g.add("star", [unit_e(b.g, e)]), b.g.lit(b.word(1, 2))])
    return b.finish([unit_e(b.g, e)])


def recursive(rng):
    """Recursive grammars with boxes, expressions between parentheses, lists."""
    b = Base(rng, n=3, alpha="x+()1", size=8)
    g = b.g
    k = rng.random()
    num = b.act(g.add("plus", [g.cls("0-9")]))
    if k < 0.4:
        expr = b.act(g.add("seq", [g.add("nt", r=2), g.add("star", [g.add("seq", [g.cls("+*") if rng.random() < 0.5 else b.act(g.lit("+")), g.add("nt", r=2)])])]))
        term = g.add("cho", [num, b.act(g.add("seq", [g.lit("("), g.add("nt", r=1), g.lit(")")]))] + (
            [b.act(g.add("seq", [g.lit("x"), g.add("opt", [g.add("nt", r=3)])]))] if rng.random() < 0.7 else []))
        third = b.act(g.add("seq", [g.lit("["), g.add("star", [g.add("nt", r=1)]), g.lit("]")]))
        return b.finish([expr, term, third])
    if k < 0.7:  # right recursion through a choice, without type
        r1 = g.add("cho", [g.add("seq", [g.lit("("), g.add("nt", r=1), g.lit(")")]), g.lit("x"), g.add("seq", [g.lit("+"), g.add("nt", r=2)])])
        r2 = g.add("cho", [g.add("seq", [g.lit("1"), g.add("nt", r=1)]), g.add("seq", [g.lit("+"), g.add("nt", r=2)]), g.lit(")")])
        r3 = g.add("seq", [g.add("nt", r=1), g.add("opt", [g.add("nt", r=2)])])
        return b.finish([r1, r2, r3])
    # char or node through recursive rules
    base = g.cls("x1") if rng.random() < 0.5 else b.act(g.cls("x1"))
    r1 = g.add("cho", [g.add("seq", [g.lit("("), g.add("nt", r=2), g.lit(")")]), base])
    r2 = g.add("cho", [g.add("seq", [g.lit("+"), g.add("nt", r=1)]), g.add("nt", r=1)])
    r3 = g.add("star", [g.add("nt", r=2)])
    return b.finish([r1, r2, r3])


def large(rng):
    """What is long: literals, choices, classes, sequences, chains of rules, nestings, inputs."""
    b = Base(rng, alpha=rng.choice(["ab", "abc", "aé", "a€𝄞"]))
    g = b.g
    letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789éàüßñ€中文"

    def atom():
        return rng.choice([lambda: g.lit(b.word(1, 2)), lambda: g.cls(rand_class(rng, g.alpha)), lambda: g.add("any")])()

    def leaf():
        k = rng.random()
        return g.add("any") if k < 0.4 else b.act(g.cls(rand_class(rng, g.alpha))) if k < 0.7 else g.cls(rand_class(rng, g.alpha))

    k = rng.randrange(8)
    if k == 0:  # long literals, with long common prefixes
        w = b.word(8, 60) if rng.random() < 0.6 else b.word(60, 330)
        ws = [w, w + b.word(1, 4), w[:rng.randint(1, len(w))] + b.word(1, 3), w[:-1]]
        rng.shuffle(ws)
        els = [g.add("seq", [g.lit(x), leaf()]) if rng.random() < 0.3 else g.lit(x) for x in ws]
        e = g.add("cho", els)
        r = rng.random()
        return b.finish([unit_e(g, g.add("plus", [e]) if r < 0.5 else g.add("seq", [e, g.lit(b.word(1, 20))]))])
    if k == 1:  # many branches
        ls = rng.sample(letters, rng.randint(14, rng.choice([40, 68])))
        t = rng.randrange(3)
        els = [g.lit(c + b.word(0, 1)) if t == 0 else g.add("seq", [g.lit(c), g.add("any")]) if t == 1 else b.act(g.lit(c)) for c in ls]
        g.alpha = "".join(ls)
        e = g.add("cho", els)
        r = rng.random()
        return b.finish([g.add("star", [e]) if r < 0.3 else g.add("seq", [e, leaf()]) if r < 0.6 else e])
    if k == 2:  # many intervals
        cs = sorted(rng.sample(letters, rng.randint(24, 50)))
        s = "".join(c if rng.random() < 0.5 else c + "-" + chr(ord(c) + rng.choice([0, 0, 1])) for c in (cs if rng.random() < 0.5 else rng.sample(cs, len(cs))))
        g.alpha = letters
        e = g.cls(s)
        r = rng.random()
        return b.finish([e if r < 0.3 else g.add("plus", [e]) if r < 0.6 else g.add("seq", [g.add("not", [g.cls(s[:9])]), e])])
    if k == 3:  # a long chain of rules, in any order
        n = rng.randint(12, rng.choice([36, 36, 70]))
        order = list(range(2, n + 1))
        rng.shuffle(order)
        order = [1] + order
        t = rng.randrange(3)
        bodies = [None] * n
        for p, r in enumerate(order):
            if p == n - 1:
                e = [lambda: g.lit(b.word(1, 2)), lambda: g.cls(rand_class(rng, g.alpha)), lambda: b.act(g.add("any"))][t]()
            else:
                e = g.add("nt", r=order[p + 1])
                q = rng.random()
                if q < 0.2:
                    e = g.add("seq", [g.lit(b.word(1, 1)), e])
                elif q < 0.35:
                    e = g.add("seq", [e, g.lit(b.word(1, 1))])
                elif q < 0.45:
                    e = g.add("seq", [g.add(rng.choice(["not", "and"]), [g.lit(b.word(1, 1))]), e])
                elif q < 0.55 and p > 2:  # a cycle
                    e = g.add("cho", [g.add("seq", [g.lit(b.word(1, 2)), g.add("nt", r=rng.choice(order[:p]))]), e])
            bodies[r - 1] = e
        return b.finish(bodies)
    if k == 4:  # deep
        e = leaf() if rng.random() < 0.5 else g.lit(b.word(1, 2))
        for _ in range(rng.randint(9, 20)):
            q = rng.random()
            e = (g.add("seq", [g.lit(b.word(1, 1)), e]) if q < 0.35 else g.add("seq", [e, g.lit(b.word(1, 1))]) if q < 0.5 else
                 g.add("seq", [g.lit(b.word(1, 1)), g.add("opt", [e])]) if q < 0.65 else
                 g.add("plus", [g.add("seq", [g.lit(b.word(1, 1)), e])]) if q < 0.75 else
                 b.act(e) if q < 0.9 else g.add("seq", [g.add("not", [g.lit(b.word(2, 3))]), e]))
        return b.finish([e])
    if k == 5:  # long sequences
        els, vals = [], 0
        for _ in range(rng.randint(13, 26)):
            if vals < 20 and rng.random() < 0.5:
                vals += 1
                els.append(leaf())
            else:
                els.append(g.add(rng.choice(["not", "and", "opt"]), [g.lit(b.word(1, 2))]) if rng.random() < 0.2 else g.lit(b.word(1, 2)))
        e = g.add("seq", els)
        return b.finish([b.act(e) if rng.random() < 0.5 else e])
    if k == 6:  # long repetitions
        q = rng.random()
        e = atom()
        if q < 0.3:
            e = g.add("seq", [g.add("star", [e]), g.lit("z")])
        elif q < 0.5:
            e = g.add("plus", [g.add("seq", [g.add("plus", [e]), g.lit("z")])])
        elif q < 0.7:
            e = g.add("plus", [b.act(g.add("seq", [leaf(), atom()]))])
        elif q < 0.85:
            e = g.add("star", [g.add("cho", [b.act(g.lit(b.word(2, 3))), b.act(g.add("any"))])])
        else:
            e = g.add("plus", [e])
        return b.finish([e])
    # recursive and long: nested parentheses, lists by recursion
    g.alpha = "()x"
    val = rng.random() < 0.5
    base = b.act(g.lit("x")) if val else g.lit("x")
    inner = g.add("seq", [g.lit("("), g.add("nt", r=1), g.lit(")")])
    r1 = g.add("cho", [b.act(inner) if val else inner, base])
    r2 = g.add("cho", [g.add("seq", [g.add("nt", r=1), g.lit("x"), g.add("asc", [g.add("nt", r=2)], t="unit")]), g.add("nt", r=1)])
    return b.finish([r1, r2])


NAMES = ["a", "b0", "c1", "mark1", "mark2", "counter1", "branch_result_1", "result", "data", "value", "parse", "recognize", "expr", "x",
         "mark", "counter", "body", "success", "failure", "left", "_private", "snake_case_1", "camelCase", "oak", "stream", "rule",
         "grammar", "union", "default", "auto", "error", "next", "new", "restore", "clone", "len", "push", "lo", "hi", "span", "id", "ab0",
         "r#type", "r#match", "r#fn", "r#struct", "r#where", "r#let", "r#box", "é", "été_1", "名"]
ACTION_NAMES = ["a", "b0", "c0", "c1", "ab0", "d0", "b1", "mark1", "mark2", "counter1", "counter2", "branch_result_1", "result", "data",
                "value", "expr", "x", "mark", "counter", "failure", "success", "error", "_f", "make_it", "camelCase", "e0", "f0", "r#loop", "r#move", "r#return", "ü"]


def names(rng):
    """Rules and actions whose names could meet the names of the generated code."""
    g = FAMILIES[rng.choice(["typed", "typed", "branches", "loops", "tuples", "calls"])](rng)
    ns = rng.sample(NAMES, len(NAMES))
    for r in g.rules:
        r["name"] = ns.pop() if ns else "z" + r["name"]
    fs = rng.sample(ACTION_NAMES, len(ACTION_NAMES))
    for f in g.fns:
        if f["kind"] == "fn" and fs and rng.random() < 0.8:
            f["path"] = fs.pop()
    return g


def chains(rng):
    """Operators on operators, directly or through rules, choices, annotations and actions."""
    g = G()
    g.alpha = "ab"
    n = rng.choice([1, 2, 3, 3])
    ops = ["star", "plus", "opt", "not", "and"]

    def e(d, i):
        k = rng.random()
        if d == 0 or k < 0.1:
            return g.lit(rng.choice("ab")) if rng.random() < 0.6 else g.add("nt", r=rng.randint(1, n)) if rng.random() < 0.6 else g.add("any")
        if k < 0.72:
            return g.add(rng.choice(ops), [e(d - 1, i)])
        if k < 0.84:
            return g.add("cho", [e(d - 1, i) for _ in range(rng.choice([2, 2, 3]))])
        if k < 0.9:
            return g.add("seq", [e(d - 1, i), e(d - 1, i)])
        if k < 0.95:
            return g.add("asc", [e(d - 1, i)], t=rng.choice(["unit", "inv"]))
        return g.add("act", [e(d - 1, i)], fn=g.fn("fn"), box=False)

    for i in range(n):
        g.rule("r%d" % (i + 1), g.add("asc", [e(rng.choice([1, 2, 3, 3]), i)], t="unit"))
    return g


def hollow(rng):
    """What may succeed without reading: predicates, options, empty literals, below options, repetitions, choices and sequences."""
    g = G()
    g.alpha = rng.choice(["ab", "ab", "aé"])
    n = rng.choice([1, 1, 2, 2, 3, 3, 4, 6])

    def leaf():
        k = rng.random()
        if k < 0.12:
            return g.lit("")
        if k < 0.6:
            return g.lit(rng.choice(g.alpha))
        if k < 0.75:
            return g.add("any")
        return g.add("nt", r=rng.randint(1, n))

    def e(d):
        k = rng.random()
        if d == 0:
            return g.add(rng.choice(["not", "and"]), [leaf()]) if k < 0.45 else leaf()
        if k < 0.3:
            return g.add("cho", [e(d - 1) for _ in range(rng.choice([2, 2, 3]))])
        if k < 0.5:
            return g.add("seq", [e(d - 1) for _ in range(rng.choice([2, 2, 3]))])
        if k < 0.66:
            return g.add("opt", [e(d - 1)])
        if k < 0.76:
            return g.add(rng.choice(["star", "plus"]), [e(d - 1)])
        if k < 0.94:
            return g.add(rng.choice(["not", "and"]), [e(d - 1)])
        return g.add("act", [e(d - 1)], fn=g.fn("fn"), box=False)

    for i in range(n):
        g.rule("r%d" % (i + 1), e(rng.choice([1, 2, 3, 3])))
    return unit(rng, g)


def leftrec(rng):
    """A cycle of rules whose calls stand behind expressions that may succeed without reading, or seem to."""
    g = G()
    g.alpha = rng.choice(["ab", "ab", "abc", "aé"])
    n = rng.choice([1, 1, 2, 2, 3, 4])
    helpers = rng.choice([0, 0, 1, 2])

    def lit():
        return g.lit(rng.choice(g.alpha))

    def reads(d):
        """Always reads when it succeeds."""
        k = rng.random()
        if d <= 0 or k < 0.2:
            return rng.choice([lit, lit, lambda: g.add("any"), lambda: g.cls(rand_class(rng, g.alpha))])()
        if k < 0.5:
            els = [rng.choice([reads, reads, empty])(d - 1) for _ in range(rng.choice([1, 1, 2]))]
            els.insert(rng.randint(0, len(els)), reads(d - 1))
            return g.add("seq", els)
        if k < 0.68:
            return g.add("cho", [reads(d - 1) for _ in range(rng.choice([2, 2, 3]))])
        if k < 0.78:
            return g.add("plus", [reads(d - 1)])
        if k < 0.86 and helpers:
            return g.add("nt", r=n + 1 + 2 * rng.randrange(helpers))
        if k < 0.93:
            return g.add("seq", [g.add(rng.choice(["not", "and"]), [reads(d - 1)]), reads(d - 1)])
        return g.add("act", [reads(d - 1)], fn=g.fn("fn"), box=False)

    def empty(d):
        """May succeed without reading."""
        k = rng.random()
        if k < 0.3:
            return g.add("opt", [reads(d - 1)])
        if k < 0.5:
            return g.add("star", [reads(d - 1)])
        if k < 0.68:
            return g.add(rng.choice(["not", "and"]), [reads(d - 1)])
        if k < 0.76 and helpers:
            return g.add("nt", r=n + 2 + 2 * rng.randrange(helpers))
        if d <= 0:
            return g.add("opt", [lit()])
        if k < 0.86:
            return g.add("cho", [reads(d - 1) for _ in range(rng.choice([1, 2]))] + [empty(d - 1)])
        if k < 0.97:
            return g.add("seq", [empty(d - 1), empty(d - 1)])
        return g.add("opt", [empty(d - 1)])

    def step(r):
        els = [empty(rng.choice([0, 1, 2, 2])) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
        k = rng.random()
        if k < 0.2:
            els.insert(rng.randint(0, len(els)), reads(rng.choice([0, 1, 2])))
        c = g.add("nt", r=r)
        if rng.random() < 0.15:
            c = g.add(rng.choice(["opt", "star", "plus", "and", "not"]), [c])
        els.append(c)
        els += [rng.choice([reads, empty])(rng.choice([0, 1])) for _ in range(rng.choice([0, 1, 1, 2]))]
        e = g.add("seq", els) if len(els) > 1 else els[0]
        if rng.random() < 0.1:
            e = g.add(rng.choice(["opt", "plus"]), [e])
        return e

    for i in range(n):
        e = step((i + 1) % n + 1)
        k = rng.random()
        if k < 0.75:
            es = [e, reads(1)]
            if rng.random() < 0.3:
                es.append(reads(0))
            rng.shuffle(es)
            e = g.add("cho", es)
        if rng.random() < 0.3:
            e = g.add("seq", rng.choice([[e, reads(0)], [empty(1), e], [e, empty(1)], [reads(0), e]]))
        g.rule("r%d" % (i + 1), e)
    for i in range(helpers):
        g.rule("r%d" % (n + 1 + 2 * i), reads(2))
        g.rule("r%d" % (n + 2 + 2 * i), g.add(rng.choice(["opt", "star"]), [reads(1)]) if rng.random() < 0.6 else empty(1))
    return unit(rng, g)


def cycles(rng):
    """Rules that call each other: long cycles, cycles that share rules, in any order."""
    n = rng.choice([3, 4, 4, 5, 6, 7, 9])
    extra = rng.choice([0, 0, 0, 1, 2, 3])  # rules outside of the cycles that call them
    b = Base(rng, n=n + extra, alpha="abcd")
    g = b.g
    order = list(range(1, n + 1))
    rng.shuffle(order)
    nxt = {order[i]: order[(i + 1) % n] for i in range(n)}
    style = rng.choice(["inv", "char", "node", "bnode", "mixed"])

    def base():
        if style == "inv":
            return g.lit(b.word(1, 2))
        if style == "char":
            return g.cls(rng.choice(["ab", "a-c", "d"]))
        if style in ("node", "bnode"):
            return b.act(rng.choice([lambda: g.lit(b.word(1, 2)), lambda: g.cls("a-d"), lambda: g.add("any")])(), style == "bnode")
        return rng.choice([lambda: g.lit(b.word(1, 2)), lambda: g.add("any"), lambda: b.act(g.lit(b.word(1, 1)))])()

    def step(i, r):
        """A branch of rule i that calls rule r."""
        els = [g.lit(b.word(1, 1))] if rng.random() < 0.85 else []
        c = g.add("nt", r=r)
        k = rng.random()
        if k < 0.08:
            c = g.add(rng.choice(["opt", "star"]), [c])
        elif k < 0.16:
            c = g.add(rng.choice(["and", "not"]), [c])
            els.append(g.lit(b.word(1, 1)))
        elif k < 0.2:
            c = g.add("asc", [c], t=rng.choice(["unit", "inv"]))
        els.append(c)
        if rng.random() < 0.3:
            els.append(g.lit(b.word(1, 1)))
        if rng.random() < 0.1:
            els.append(g.add("opt", [g.add("nt", r=rng.randint(1, n))]))
        if style == "node" and rng.random() < 0.08:
            els.insert(1, g.add("act", [g.lit(b.word(1, 1))], fn=g.fn("fn", "extn"), box=False))
        e = g.add("seq", els) if len(els) > 1 else els[0]
        if style in ("node", "bnode") and rng.random() < 0.4 or style == "mixed" and rng.random() < 0.3:
            e = b.act(e, style == "bnode")  # the Rust types are compared by rustc only: never both Node and Box<Node>
        return e

    def user(i):
        """A rule that calls the cycles, and perhaps itself: the recursive types may have no place in its type."""
        nt = lambda: g.add("nt", r=rng.randint(1, n) if rng.random() < 0.7 else n + 1 + rng.randrange(extra))
        k = rng.random()
        e = g.add(rng.choice(["opt", "star", "plus"]), [g.add("seq", [g.lit(b.word(1, 1)), nt()]) if rng.random() < 0.5 else nt()])
        if k < 0.3:
            e = nt() if rng.random() < 0.3 else g.add("seq", [base(), nt()])
        if k < 0.7:
            e = g.add("seq", rng.choice([[g.lit(b.word(1, 1)), e], [base(), e], [g.lit(b.word(1, 1)), e, g.lit(b.word(1, 1))]]))
        return e

    if rng.random() < 0.2:  # a ladder: the type goes from a rule to the next one
        at = [1] + (list(range(n, 1, -1)) if rng.random() < 0.5 else rng.sample(range(2, n + 1), n - 1))  # step -> rule
        d = {r: k for k, r in enumerate(at)}
        rung = lambda r: g.add("seq", [g.lit(b.word(1, 1)), g.add("nt", r=r)])
        bodies = []
        for r in range(1, n + 1):
            k = d[r]
            bs = [rung(at[k - 1]) if k else base()] + ([rung(at[k + 1])] if k + 1 < n else [])
            rng.shuffle(bs)
            bodies.append(g.add("cho", bs) if len(bs) > 1 else bs[0])
        return b.finish(bodies + [user(i) for i in range(extra)])
    bodies = []
    options = rng.random() < 0.2
    bases = {i for i in range(1, n + 1) if rng.random() < 0.4} or {rng.randint(1, n)}
    for i in range(1, n + 1):
        bs = [step(i, nxt[i])]
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            bs.append(step(i, rng.randint(1, n)))
        if i in bases:
            bs.append(base())
        if options:
            bs = [g.add("seq", [g.lit(b.word(1, 1)) if rng.random() < 0.6 else base(), g.add(rng.choice(["opt", "opt", "star"]), [x])]) for x in bs[:1]]
        rng.shuffle(bs)
        e = g.add("cho", bs) if len(bs) > 1 else bs[0]
        if rng.random() < 0.06:
            e = g.add("asc", [e], t=rng.choice(["unit", "inv"]))
        bodies.append(e)
    return b.finish(bodies + [user(i) for i in range(extra)])


def mistyped(rng):
    """Typed grammars with a change that may break their typing."""
    b = FAMILIES[rng.choice(["typed", "typed", "branches", "recursive", "cycles", "calls", "spans", "tuples", "tuplecalls"])](rng)
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randint(1, len(b.x))
        x = b.x[i - 1]
        k = rng.random()
        if x["k"] == "asc" and any(y["k"] == "rng" and y["c"] == [i] for y in b.x):
            continue  # implicit
        if x["k"] == "asc":
            x["t"] = rng.choice(["unit", "inv", "rust"])
            if x["t"] == "rust":
                x["s"] = rng.choice(["Node", "char", "Vec<char>"])
        elif x["k"] == "act":
            if k < 0.5 and b.fns[x["fn"] - 1]["kind"] == "fn" and not b.fns[x["fn"] - 1].get("wrap"):
                b.fns[x["fn"] - 1]["ret"] = rng.choice(["none", "()", "extn", "Node"])
            else:
                x["box"] = not x["box"]
        elif x["k"] in ("star", "opt", "plus"):
            x["k"] = rng.choice(["star", "opt", "plus", "and", "not"])
        elif x["k"] in ("any", "cls"):
            x.clear()
            x.update({"k": "lit", "c": [], "s": [97]} if k < 0.4 else {"k": "nt", "c": [], "r": rng.randint(1, len(b.rules))} if k < 0.7 else
                     {"k": "any", "c": []})
        elif x["k"] == "lit":
            x.clear()
            x.update({"k": "any", "c": []} if k < 0.5 else {"k": "nt", "c": [], "r": rng.randint(1, len(b.rules))})
        elif x["k"] == "nt":
            x["r"] = rng.randint(1, len(b.rules))
        elif x["k"] == "seq" and k < 0.7:
            # one component more or less, in one branch only
            j = rng.randrange(len(x["c"]))
            if k < 0.4 and len(x["c"]) > 2:
                del x["c"][j]
            else:
                x["c"].insert(j, b.add("any") if k < 0.6 else b.add("lit", s=[98]))
        elif x["k"] == "seq" and k < 0.85:
            # an annotation around a part
            j = rng.randrange(len(x["c"]))
            x["c"][j] = b.add("asc", [x["c"][j]], t=rng.choice(["unit", "inv"]))
    return b


class Provider(Typed):
    """A grammar whose rules have the types that can be written as Rust types."""

    def rand_type(self, d=2):
        if d == 2:
            return self.rng.choice(list(gen.EXT_TYPES) + ["char", "node", "inv"])
        return Typed.rand_type(self, d)


def diverges(gs, gi):
    """May a rule of grammar gi diverge because of an external rule that matches nothing ?  Each grammar is analysed alone:
    Oak takes for granted that the external rules read something."""
    empty = set()  # rules that may match nothing

    def may(k, i):
        x = gs[k]["x"][i - 1]
        if x["k"] == "lit":
            return not x["s"]
        if x["k"] in ("any", "cls"):
            return False
        if x["k"] == "nt":
            return (k, x["r"]) in empty
        if x["k"] == "ext":
            return (x["g"] - 1, x["r"]) in empty
        if x["k"] in ("star", "opt", "and", "not"):
            return True
        return (any if x["k"] == "cho" else all)([may(k, c) for c in x["c"]])

    more = True
    while more:
        more = False
        for k, g in enumerate(gs):
            for r, rule in enumerate(g["rules"]):
                if (k, r + 1) not in empty and may(k, rule["e"]):
                    empty.add((k, r + 1))
                    more = True
    x = gs[gi]["x"]
    if any(n["k"] in ("star", "plus") and may(gi, n["c"][0]) for n in x):
        return True

    def first(i):
        """Rules called before anything is read."""
        n = x[i - 1]
        if n["k"] == "nt":
            return {n["r"]}
        out = set()
        for c in n["c"]:
            out |= first(c)
            if n["k"] == "seq" and not may(gi, c):
                break
        return out

    calls = {r + 1: first(rule["e"]) for r, rule in enumerate(gs[gi]["rules"])}
    for r in calls:
        seen, todo = set(), [r]
        while todo:
            for q in calls[todo.pop()] - seen:
                seen.add(q)
                todo.append(q)
        if r in seen:
            return True
    return False


def externals(rng, n):
    """n groups of grammars: the rules of one are called by the others, over one or two levels."""
    out = []
    for _ in range(n):
        alpha = rng.choice(["ab", "abc", "aé", "ab\n"])
        base = len(out)
        provided = []
        for level in range(rng.choice([2, 2, 3])):
            b = Provider(rng, alpha=alpha, nrules=rng.choice([1, 2, 3]), externals=list(provided)) if level == 0 else \
                Provider(rng, alpha=alpha, externals=list(provided)) if level == 1 and rng.random() < 0.5 else \
                Typed(rng, alpha=alpha, externals=list(provided))
            j = b.build().json()
            if diverges(out + [j], len(out)):
                continue
            j["alpha"], j["family"] = alpha, "externals"
            j["needs"] = sorted({x["g"] - 1 for x in j["x"] if x["k"] == "ext"})
            j["group"] = base
            out.append(j)
            for r, t in enumerate(b.rtypes):
                provided.append((len(out), r + 1, t))
    for j in out:
        j["extnames"] = {str(k + 1): [r["name"] for r in out[k]["rules"]] for k in j["needs"]}
    return out


FAMILIES = {
    "typed": typed, "big": big, "wild": wild, "struct": struct, "classes": classes, "branches": branches, "prefixes": prefixes,
    "calls": calls, "tuples": tuples, "tuplecalls": tuplecalls, "scopes": scopes, "predicates": predicates, "loops": loops, "spans": spans,
    "errors": errors, "recursive": recursive, "names": names, "chains": chains, "mistyped": mistyped,
    "large": large, "hollow": hollow, "leftrec": leftrec, "cycles": cycles, "realistic": realistic.realistic,
}


def build(rng, mix):
    """mix: {family: count}.  Returns the grammars as JSON."""
    out = []
    for name, n in mix.items():
        for _ in range(n):
            g = FAMILIES[name](rng)
            j = g.json()
            j["alpha"], j["family"] = g.alpha, name
            out.append(j)
    return out
