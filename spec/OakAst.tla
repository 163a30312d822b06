------------------------------- MODULE OakAst -------------------------------
(* The abstract syntax shared by every module of the specification.

   A grammar is a record
     rules : sequence of [name, e]      e = index of the rule body in x
     x     : sequence of nodes          (expressions, 1-based indices)
     fns   : sequence of action functions [kind, ret]

   A node is a record whose field k is one of
     "lit"  s   string literal (code points)         "any"      any character
     "cls"  s   character class, the text between the quotes (code points)
     "nt"   r   call of rule r of this grammar
     "ext"  g,r call of rule r of grammar number g (an external rule)
     "seq"  c   sequence           "cho"  c   ordered choice
     "star" c   e*    "plus" c  e+    "opt" c  e?
     "not"  c   !e    "and"  c  &e
     "act"  c,fn,box  e > fn  /  e > box fn
     "asc"  c,t       e:t     t is "unit" (), "inv" (^) or "rust"
     "span" c   .. e          "rng"  c   ... e
   The field c is always the sequence of the children.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Child(g, i) == g.x[i].c[1]
Body(g, r)  == g.rules[r].e
NRules(g)   == Len(g.rules)

IsUnary(k)  == k \in {"star", "plus", "opt", "not", "and", "act", "asc", "span", "rng"}

RECURSIVE FlattenSeq(_)
FlattenSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeq(Tail(ss))

(* ---- Characters ------------------------------------------------------- *)
Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

RECURSIVE ByteLen(_)
ByteLen(s) == IF s = <<>> THEN 0 ELSE Utf8Len(Head(s)) + ByteLen(Tail(s))

RECURSIVE OffsetsFrom(_, _)
OffsetsFrom(s, acc) ==
  IF s = <<>> THEN <<acc>> ELSE <<acc>> \o OffsetsFrom(Tail(s), acc + Utf8Len(Head(s)))
\* Offsets(s)[p+1] = number of bytes of the first p characters of s
Offsets(s) == OffsetsFrom(s, 0)

(* ---- Character classes -------------------------------------------------
   "-" is a plain character only at the start or at the end of the class.    *)
Dash == 45

\* Class(s) = [ok, iv]: the denoted sequence of intervals <<lo, hi>>, or not ok.
RECURSIVE ClassFrom(_, _, _)
ClassFrom(s, n, iv) ==
  LET len == Len(s) IN
  IF n > len THEN [ok |-> TRUE, iv |-> iv]
  ELSE LET lo == s[n] IN
       IF lo = Dash /\ n < len THEN [ok |-> FALSE, iv |-> <<>>]
       ELSE IF n < len /\ s[n+1] = Dash
            THEN IF n + 2 > len
                 THEN [ok |-> TRUE, iv |-> iv \o << <<lo, lo>>, <<Dash, Dash>> >>]
                 ELSE IF s[n+2] = Dash THEN [ok |-> FALSE, iv |-> <<>>]
                 ELSE ClassFrom(s, n + 3, Append(iv, <<lo, s[n+2]>>))
            ELSE ClassFrom(s, n + 1, Append(iv, <<lo, lo>>))

Class(s) ==
  IF s = <<>> THEN [ok |-> FALSE, iv |-> <<>>]
  ELSE IF s[1] = Dash THEN ClassFrom(s, 2, << <<Dash, Dash>> >>)
  ELSE ClassFrom(s, 1, <<>>)

InClass(iv, c) == \E n \in 1..Len(iv) : iv[n][1] <= c /\ c <= iv[n][2]

(* Text of a class in error messages: ["..."] with escaped bounds.            *)
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE Hex(_)
Hex(n) == IF n < 16 THEN <<HexDigit(n)>> ELSE Append(Hex(n \div 16), HexDigit(n % 16))
EscapeChar(c) ==
  IF c = 9 THEN <<92, 116>> ELSE IF c = 10 THEN <<92, 110>> ELSE IF c = 13 THEN <<92, 114>>
  ELSE IF c \in {34, 39, 92} THEN <<92, c>>
  ELSE IF c >= 32 /\ c <= 126 THEN <<c>>
  ELSE <<92, 117, 123>> \o Hex(c) \o <<125>>
RECURSIVE IntervalsText(_)
IntervalsText(iv) ==
  IF iv = <<>> THEN <<>>
  ELSE LET b == Head(iv) IN
       (IF b[1] = b[2] THEN EscapeChar(b[1]) ELSE EscapeChar(b[1]) \o <<Dash>> \o EscapeChar(b[2]))
       \o IntervalsText(Tail(iv))
ClassText(iv) == <<91, 34>> \o IntervalsText(iv) \o <<34, 93>>

\* `<character>`: the item expected by `.`
AnyText == <<60, 99, 104, 97, 114, 97, 99, 116, 101, 114, 62>>

\* The item a terminal reports when it fails.
ItemOf(x) == IF x.k = "lit" THEN x.s ELSE IF x.k = "any" THEN AnyText ELSE ClassText(Class(x.s).iv)

(* ---- Sets of nodes ---------------------------------------------------- *)
RECURSIVE NodesBelow(_, _)
NodesBelow(g, i) ==
  LET cs == g.x[i].c IN {i} \cup UNION {NodesBelow(g, cs[n]) : n \in 1..Len(cs)}

\* The rule whose body contains node i (0 when the node is unused).
RuleOf(g, i) ==
  LET rs == {r \in 1..NRules(g) : i \in NodesBelow(g, Body(g, r))} IN
  IF rs = {} THEN 0 ELSE CHOOSE r \in rs : TRUE
=============================================================================
