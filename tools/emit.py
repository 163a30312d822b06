"""Rust code of the generated grammars."""
import random

import gen

TYPES = {"Node": "Node"}


def rule_text(g, gi, r, paths=None, noise=None):
    """Concrete text of rule r (0-based)."""
    rule = g["rules"][r]
    e = rule["e"]
    x = g["x"][e - 1]
    if x["k"] == "asc" and rule.get("typed", True) and (noise is None or noise.random() < 0.7):
        ty = {"unit": "()", "inv": "(^)"}.get(x["t"]) or x["s"]
        return "%s: %s = %s" % (rule["name"], ty, gen.concrete(g, gi, x["c"][0], gen.PREC_CHO, paths, noise))
    return "%s = %s" % (rule["name"], gen.concrete(g, gi, e, gen.PREC_CHO, paths, noise))


def used_fns(g):
    """Map of the action functions used: number -> set of arities' expressions."""
    out = {}
    for i, x in enumerate(g["x"]):
        if x["k"] == "act":
            out.setdefault(x["fn"], []).append(i)
    return out


def fn_def(g, f, arity, body):
    """Definition of action function f."""
    fn = g["fns"][f - 1]
    name = gen.fn_name(g, f)
    ret = fn["ret"]
    params = "".join(", T%d: Tok" % n for n in range(arity))[2:]
    args = ", ".join("a%d: T%d" % (n, n) for n in range(arity))
    if ret == "none":
        sig = ""
    elif ret == "extn":
        sig = " -> Node"
    else:
        sig = " -> " + ret
    mk = "mk" if fn["kind"] == "fn" else "mkq"
    semi = ";" if ret in ("none", "()") else ""
    code = "{ %s(%d, &[%s])%s }" % (mk, f, ", ".join("&a%d" % n for n in range(arity)), semi) if body else "{ loop {} }"
    return "pub fn %s%s(%s)%s %s" % (name, "<%s>" % params if params else "", args, sig, code)


# ways to write the rule of another grammar
EXTERNALS = ["super::g%d::%s", "crate::g%d::%s", "g%d::%s", "self::super::g%d::%s"]
# types that are not the stream
DECOYS = ["", "pub type InnerStream<'a> = std::slice::Iter<'a, u8>;", "pub type Streams = u8;", "pub mod sub { pub type Stream = u8; }",
          "pub type StreamOf<'z, T> = &'z T;", "", "pub type Out = Vec<u8>; pub type stream = Out;", "pub struct Thing<'a>(pub &'a str);"]


def grammar_mod(g, gi, arities=None, body=True, stream=None, noise=None, header="", prelude="use crate::*;", show=False):
    """Lines of `mod gN { oak!{...} }`; each rule on its own line.  Returns (lines, line offsets of the rules)."""
    paths = lambda g2, r2: EXTERNALS[(gi + g2 + r2) % len(EXTERNALS)] % (g2, g["extnames"][str(g2)][r2 - 1])
    lines = ["#[allow(unused)] pub mod g%d { use oak::oak; %s" % (gi + 1, prelude)]
    inside, outside = [], []
    for f, acts in sorted(used_fns(g).items()):
        fn = g["fns"][f - 1]
        n = 0 if arities is None else arities[acts[0]]
        if fn["kind"] == "ctor" and n == 0:
            d = "pub const A%d: Node = Node::C(&[7, %d, 0]);" % (f, f)
        else:
            d = fn_def(g, f, n, body)
        if fn.get("wrap") == "mod":
            d = "pub mod m%d { use super::*; %s }" % (f, d)
        elif fn.get("wrap") == "impl":
            d = "pub struct Ty%d; impl Ty%d { %s }" % (f, f, d)
        (outside if fn["ret"] == "extn" else inside).append(d)
    lines.append("  " + " ".join(outside))
    lines.append("  oak! { " + (header or ""))
    # the declaration of the stream comes first or last
    decl = stream[gi % len(stream)] if stream else ""
    decoy = DECOYS[gi // 2 % len(DECOYS)] if stream else ""
    decl = " ".join([decl, decoy] if gi % 5 < 2 else [decoy, decl])
    if decl and gi % 3:
        lines += ("    " + decl).split("\n")
        decl = ""
    where = {}
    if "lines" in g:  # a grammar given by its tokens
        if g.get("first"):
            lines.append("    " + " ".join(inside))
        where = {len(lines) + k: r for k, r in g["where"].items()}
        lines += ["    " + l if not n else l for n, l in enumerate(g["lines"])]
        if not g.get("first"):
            lines.append("    " + " ".join(inside))
        lines += ("    " + decl).split("\n") if decl else []
        lines.append("} %s }" % " ".join("const _KEPT%d: fn() -> i64 = %s;" % (n, k) for n, k in enumerate(g["keeps"])))
        return lines, where
    for r in range(len(g["rules"])):
        where[len(lines)] = r
        lines.append("    " + rule_text(g, gi, r, paths, noise))
    lines.append("    " + " ".join(inside))
    lines += ("    " + decl).split("\n") if decl else []
    lines.append("} }")
    return lines, where
