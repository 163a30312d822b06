"""Grammars as users write them, with small edits: a compact notation for the abstract syntax.

'text'  [class]  .  name  (e)  e* e+ e?  &e !e  e:u (unit)  e:i (invisible)  @e (span)  e1 e2  e > f  e > ^f (boxed)  e1 / e2"""
import re

import gen

TOKEN = re.compile(r"\s*('(?:[^'\\]|\\.)*'|\[(?:[^\]\\]|\\.)*\]|:[ui]|\^?[A-Za-z_]\w*|[.()*+?&!@>/=])")


def unescape(s):
    return s.replace("\\n", "\n").replace("\\r", "\r").replace("\\t", "\t").replace("\\'", "'").replace("\\]", "]").replace("\\\\", "\\")


class Reader:
    def __init__(self, text, alpha):
        self.g = gen.G()
        self.g.alpha = alpha
        self.toks = []
        pos, text = 0, text.strip()
        while pos < len(text):
            m = TOKEN.match(text, pos)
            if not m:
                raise ValueError("notation: " + text[pos:pos + 20])
            self.toks.append(m.group(1))
            pos = m.end()
        self.names = [t for t, u in zip(self.toks, self.toks[1:] + [""]) if u == "="]
        self.i = 0
        while self.i < len(self.toks):
            name = self.toks[self.i]
            self.i += 2
            self.g.rule(name, self.alt())

    def peek(self):
        if self.i >= len(self.toks) or self.i + 1 < len(self.toks) and self.toks[self.i + 1] == "=":
            return None
        return self.toks[self.i]

    def take(self):
        self.i += 1
        return self.toks[self.i - 1]

    def alt(self):
        es = [self.action()]
        while self.peek() == "/":
            self.take()
            es.append(self.action())
        return es[0] if len(es) == 1 else self.g.add("cho", es)

    def action(self):
        e = self.seq()
        while self.peek() == ">":
            self.take()
            box = self.take().startswith("^")
            e = self.g.add("act", [e], fn=self.g.fn("fn"), box=box)
        return e

    def seq(self):
        es = []
        while self.peek() is not None and self.peek() not in ("/", ">", ")"):
            es.append(self.typed())
        return es[0] if len(es) == 1 else self.g.add("seq", es)

    def typed(self):
        e = self.prefix()
        while self.peek() in (":u", ":i"):
            e = self.g.add("asc", [e], t={":u": "unit", ":i": "inv"}[self.take()])
        return e

    def prefix(self):
        t = self.peek()
        if t in ("&", "!", "@"):
            self.take()
            e = self.prefix()
            return self.g.add({"&": "and", "!": "not", "@": "span"}[t], [e])
        e = self.atom()
        while self.peek() in ("*", "+", "?"):
            e = self.g.add({"*": "star", "+": "plus", "?": "opt"}[self.take()], [e])
        return e

    def atom(self):
        t = self.take()
        if t == "(":
            e = self.alt()
            assert self.take() == ")"
            return e
        if t == ".":
            return self.g.add("any")
        if t[0] == "'":
            return self.g.lit(unescape(t[1:-1]))
        if t[0] == "[":
            return self.g.cls(unescape(t[1:-1]))
        return self.g.add("nt", r=self.names.index(t) + 1)


CALC = ("+-*/^()x12 \n", r"""
program = spacing expression
expression = term (term_op term)* > fold_left
term = exponent (factor_op exponent)* > fold_left
exponent = (factor exponent_op)* factor > fold_right
factor = number > ^num / identifier > ^var / let_expr > ^let / lparen expression rparen
let_expr = let_kw let_binding in_kw expression
let_binding = identifier bind_op expression
term_op = add_op > add / sub_op > sub
factor_op = mul_op > mul / div_op > div
exponent_op = exp_op > exp
identifier = !digit !keyword ident_char+ spacing > to_string
ident_char = [a-zA-Z0-9_]
digit = [0-9]
number = digit+ spacing > to_number
spacing = [ \n\r\t]*:i
kw_tail = !ident_char spacing
keyword = let_kw / in_kw
let_kw = 'let' kw_tail
in_kw = 'in' kw_tail
bind_op = '=' spacing
add_op = '+' spacing
sub_op = '-' spacing
mul_op = '*' spacing
div_op = '/' spacing
exp_op = '^' spacing
lparen = '(' spacing
rparen = ')' spacing
""")

JSON = ("{}[]\":,01-.etruflasn \n\\", r"""
file = ws value !.
value = object > obj / array > arr / string > str / number > num / 'true' ws > yes / 'false' ws > no / 'null' ws > nil
object = lbrace (member (comma member)*)? rbrace
member = string colon value
array = lbracket (value (comma value)*)? rbracket
string = '"' char* '"' ws
char = escape / !['"\\'] .
escape = '\\' ["\\/bfnrt]
number = '-'? int frac? exp? ws > number
int = '0' > zero / ([1-9] digit*) > int
frac = '.' digit+
exp = [eE] [+-]? digit+
digit = [0-9]
ws = [ \n\r\t]*:i
lbrace = '{' ws
rbrace = '}' ws
lbracket = '[' ws
rbracket = ']' ws
comma = ',' ws
colon = ':' ws
""")

SEXPR = ("()ab1; \n'", r"""
program = skip form* > all
form = @(atom > atom) skip > at / lparen form* rparen > list / quote form > ^quoted > unboxed
atom = integer > int / symbol > sym
integer = '-'? [0-9]+ !symchar
symbol = symchar+
symchar = [a-zA-Z0-9+*/<>=!?_-]
skip = (blank / comment)*:i
blank = [ \t\n\r]
comment = ';' (!'\n' .)* ('\n' / !.)
lparen = '(' skip
rparen = ')' skip
quote = '\''
""")

CSV = ("ab,\"\r\n é", r"""
file = record (eol record)* > file
record = field (',' field)* > record
field = quoted > q / plain > p
quoted = '"' (escaped > e / other > o)* '"'
escaped = '""'
other = !'"' .
plain = (![,"\r\n] .)*
eol = '\r\n' / '\n'
""")

INI = ("[]=;ab \n.", r"""
file = (blank_line / comment_line)*:i entry* section* !.
section = header entry*
header = '[' name ']' ws eol
entry = @(name > key) ws '=' ws value eol
name = [a-zA-Z] [a-zA-Z0-9_.]*
value = (!eol .)*
ws = [ \t]*:i
eol = (end_line (blank_line / comment_line)*):i
blank_line = ws end_line
comment_line = ws ';' (!'\n' .)* end_line
end_line = '\n' / '\r\n'
""")

NTCC = ("pick|wen store=->next| \n", r"""
ntcc = spacing expression:i
expression = sum / par / tell / next / unless / skip_kw
sum = pick_kw or? when sum_body* end_kw?
sum_body = (or when):i
par = par_kw oror? expression par_body* end_kw?
par_body = (oror expression):i
tell = store_kw left_arrow constraint
next = next_kw expression
unless = unless_kw entailed_by next
when = when_kw entails right_arrow expression
entails = store_kw entail constraint
entailed_by = constraint entail store_kw
constraint = constraint_operand comparison constraint_operand
constraint_operand = integer / var_ident
comparison = le / neq / lt / ge / gt / eq
integer = ([0-9]+ spacing):i
var_ident = (![0-9] [a-zA-Z0-9_]+ spacing):i
spacing = [ \n\t]*:i
pick_kw = 'pick' spacing
when_kw = 'when' spacing
store_kw = 'store' spacing
skip_kw = 'skip' spacing
end_kw = 'end' spacing
par_kw = 'par' spacing
next_kw = 'next' spacing
unless_kw = 'unless' spacing
or = '|' spacing
oror = '||' spacing
entail = '|=' spacing
lt = '<' spacing
le = '<=' spacing
gt = '>' spacing
ge = '>=' spacing
eq = '=' spacing
neq = '<>' spacing
right_arrow = '->' spacing
left_arrow = '<-' spacing
""")

TYPE_NAME = ("&*mutcosVe<>(), 'a", r"""
type_names = type_name (comma type_name)* > types
type_name = simple > s / path > p / pointer > ^ptr > q / tuple > t
simple = keyword_type !ident_char spacing
keyword_type = 'u8' / 'i32' / 'str' / 'bool'
path = ident_char+ spacing generics?
generics = lt type_names gt
pointer = ref_kw (mut_kw > m)? type_name / star_kw (const_kw > c / mut_kw > m)? type_name
tuple = lparen type_names? rparen
ident_char = [a-zA-Z0-9_]
spacing = [ \n]*:i
ref_kw = '&' spacing
star_kw = '*' spacing
mut_kw = 'mut' !ident_char spacing
const_kw = 'const' !ident_char spacing
lt = '<' spacing
gt = '>' spacing
comma = ',' spacing
lparen = '(' spacing
rparen = ')' spacing
""")

DATES = ("0123456789-:TZ+. ", r"""
stamp = date ('T' / ' ') time zone? > stamp
date = year '-' month '-' day
year = @(digit digit digit digit > num)
month = '0' [1-9] > low / '1' [0-2] > high
day = [0-2] digit > low / '3' [01] > high
time = two ':' two seconds?
seconds = ':' two fraction?
fraction = '.' digit+
two = [0-5] digit > two
zone = 'Z' > utc / sign two (':'? two)? > shift
sign = '+' > plus / '-' > minus
digit = [0-9]
ip = octet ('.' octet)+ !.
octet = ('25' [0-5] / '2' [0-4] [0-9] / '1' [0-9] [0-9] / [1-9] [0-9] / [0-9]):u > octet
""")

MARKUP = ("<>/ab&;=\" ", r"""
content = node* > content
node = element > ^e > f / entity > en / comment > c / text > t
element = '<' name attribute* (closed > c / open > o)
closed = '/>'
open = '>' content '</' name '>'
attribute = ' '+:i name '=' '"' (!'"' .)* '"' > attribute
name = [a-z] [a-z0-9-]* > name
text = (!'<' !'&' .)+ > text
entity = '&' (name > n / '#' digit+ > d) ';'
digit = [0-9]
comment = '<!--' (!'-->' .)* '-->'
""")

TOKENS = ("ifelsx01.\"/*\n +=<", r"""
tokens = ws token* !. > tokens
token = @(kind > k) ws > token
kind = keyword > k / ident > i / float > f / int > n / op > o / string > s
keyword = ('if' / 'else' / 'elif' / 'in' / 'int') !ident_char
ident = !keyword ![0-9] ident_char+
ident_char = [a-zA-Z0-9_]
float = digits '.' digits ([eE] [+-]? digits)?
int = ('0x' [0-9a-fA-F]+ / '0b' [01]+ / digits):u
digits = [0-9] (([0-9] / '_' &[0-9]):u)*
op = ('<<=' / '<<' / '<=' / '<' / '==' / '=' / '++' / '+=' / '+'):u
string = '"' ((('\\' .) / (!["\\\n] .)):u)* '"'
ws = (([ \n\t]) / line / block)*:i
line = '//' (!'\n' .)*
block = '/*' (block / (!'*/' .):u)* '*/'
""")

ALL = [CALC, JSON, SEXPR, CSV, INI, NTCC, TYPE_NAME, DATES, MARKUP, TOKENS]


def edit(rng, g):
    """A small change: it may make the grammar wrong."""
    k = rng.randrange(7)
    xs = [n for n, x in enumerate(g.x) if x["k"] in {0: ("cho",), 1: ("lit",), 2: ("star", "plus", "opt"), 3: ("not", "and"), 4: ("seq",), 5: ("cls",),
                                                     6: ("nt",)}[k]]
    if not xs:
        return
    x = g.x[rng.choice(xs)]
    if k == 0:
        rng.shuffle(x["c"])
    elif k == 1:
        s = list(x["s"])
        if len(s) > 1 and rng.random() < 0.5:
            s = s[:-1]
        else:
            s.append(ord(rng.choice(g.alpha)))
        x["s"] = s
    elif k == 2:
        x["k"] = rng.choice(["star", "plus", "opt"])
    elif k == 3:
        x["k"] = rng.choice(["not", "and"])
    elif k == 4:
        j = rng.randrange(len(x["c"]) - 1)
        x["c"][j], x["c"][j + 1] = x["c"][j + 1], x["c"][j]
    elif k == 5:
        x["s"] = gen.cps(rng.choice(["a-z", "0-9", "^a-", "ab0-3", "a-zA-Z"]))
    else:
        x["r"] = rng.randint(1, len(g.rules))


def realistic(rng):
    alpha, text = rng.choice(ALL)
    g = Reader(text, alpha).g
    # the macro does not compare the types of the actions: one of them only
    box = rng.random() < 0.4
    for x in g.x:
        if x["k"] == "act":
            x["box"] = box
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        edit(rng, g)
    return g
