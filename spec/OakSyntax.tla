------------------------------ MODULE OakSyntax ------------------------------
(* The concrete syntax: from the sequence of the tokens of a grammar to its
   abstract syntax, or to a refusal.

     grammar  ::=  { { attr } ( rule | item ) }
     rule     ::=  id [ ":" type ] "=" choice
     choice   ::=  alt { "/" alt }
     alt      ::=  [ ".." | "..." ] seq [ ">" [ "box" ] id ]
     seq      ::=  typed { typed }
     typed    ::=  prefixed [ ":" type ]
     prefixed ::=  [ "!" | "&" ] suffixed
     suffixed ::=  atom [ "*" | "+" | "?" ]
     atom     ::=  literal | "." | "(" choice ")" | id | "[" literal "]"
     type     ::=  "(" ")" | "(" "^" ")" | Rust type

   An identifier that starts a rule is not an atom.  A token is a record
   [t, s]: t is one of the terminals above, "lit" and "brk" (a class) with their
   text s, "id" with its name s, "item" and "attr" for whole Rust items and
   inner attributes, "badbrk" for brackets that do not hold exactly one literal,
   "bad" for tokens without meaning here.  Parentheses are balanced.

   Only the simplest Rust types are described; the others, and what Rust would
   read as the continuation of a type, are "odd": nothing is said of a grammar
   where they occur.                                                            *)
EXTENDS OakAst

T(q, n) == IF n > Len(q) THEN "end" ELSE q[n].t
Is(q, n, ts) == T(q, n) \in ts

Ok(n, e)  == [o |-> "ok", n |-> n, e |-> e]
Stop(o)   == [o |-> o, n |-> 0, e |-> <<>>]
None(n)   == [o |-> "none", n |-> n, e |-> <<>>]
Node(k, cs) == [k |-> k, c |-> cs]
Asc(e, t) == [k |-> "asc", c |-> <<e>>, t |-> t]

(* ---- Types: the result is "infer", "unit", "inv" or the name of a type ----- *)
TypeEnd == {"(", "!", "&", "+", "badbrk"}  \* would go on with the Rust type, or might
RustType(q, n) ==
  IF Is(q, n, {"id"}) THEN IF Is(q, n + 1, {"(", "!", "+"}) THEN Stop("odd") ELSE Ok(n + 1, q[n].s)
  ELSE IF Is(q, n, {"("})
       THEN IF Is(q, n + 1, {"id"}) /\ Is(q, n + 2, {")"}) /\ ~Is(q, n + 3, {"+"}) THEN Ok(n + 3, q[n + 1].s)
            ELSE IF Is(q, n + 1, {"lit", ".", "..", "...", "/", ">", "?", ":", "=", "bad", "box", "brk", "badbrk"}) THEN Stop("bad")
            ELSE Stop("odd")
  ELSE IF Is(q, n, {"!", "&", "*", "item"}) THEN Stop("odd")
  ELSE Stop("bad")
TypeOf(q, n) ==
  IF ~Is(q, n, {":"}) THEN Ok(n, "infer")
  ELSE IF Is(q, n + 1, {"("}) /\ Is(q, n + 2, {")"}) THEN Ok(n + 3, "unit")
  ELSE IF Is(q, n + 1, {"("}) /\ Is(q, n + 2, {"^"}) THEN IF Is(q, n + 3, {")"}) THEN Ok(n + 4, "inv") ELSE Stop("bad")
  ELSE RustType(q, n + 1)
Typed(e, t) == IF t = "infer" THEN e
               ELSE IF t \in {"unit", "inv"} THEN Asc(e, t)
               ELSE [k |-> "asc", c |-> <<e>>, t |-> "rust", s |-> t]

\* does a rule start at n ?  "yes", "no" or "odd"
StartsRule(q, n) ==
  IF ~Is(q, n, {"id"}) THEN "no"
  ELSE LET t == TypeOf(q, n + 1) IN
       IF t.o = "odd" THEN "odd" ELSE IF t.o = "ok" /\ Is(q, t.n, {"="}) THEN "yes" ELSE "no"

(* ---- Expressions -------------------------------------------------------------- *)
RECURSIVE Choice(_, _, _)
RECURSIVE SeqFrom(_, _, _)

Atom(q, n) ==
  CASE Is(q, n, {"lit"}) -> Ok(n + 1, [k |-> "lit", c |-> <<>>, s |-> q[n].s])
    [] Is(q, n, {"..", "..."}) -> Stop("bad")
    [] Is(q, n, {"."}) -> Ok(n + 1, Node("any", <<>>))
    [] Is(q, n, {"("}) -> LET r == Choice(q, n + 1, <<>>) IN
         IF r.o # "ok" THEN r ELSE IF Is(q, r.n, {")"}) THEN Ok(r.n + 1, r.e) ELSE Stop("bad")
    [] Is(q, n, {"id"}) -> (LET s == StartsRule(q, n) IN
         IF s = "odd" THEN Stop("odd") ELSE IF s = "yes" THEN None(n)
         ELSE Ok(n + 1, [k |-> "call", c |-> <<>>, name |-> q[n].s]))
    [] Is(q, n, {"brk"}) -> IF Class(q[n].s).ok THEN Ok(n + 1, [k |-> "cls", c |-> <<>>, s |-> q[n].s]) ELSE Stop("bad")
    [] Is(q, n, {"badbrk"}) -> Stop("bad")
    [] OTHER -> None(n)

Suffixed(q, n) ==
  LET a == Atom(q, n) IN
  IF a.o # "ok" THEN a
  ELSE CASE Is(q, a.n, {"*"}) -> Ok(a.n + 1, Node("star", <<a.e>>))
         [] Is(q, a.n, {"+"}) -> Ok(a.n + 1, Node("plus", <<a.e>>))
         [] Is(q, a.n, {"?"}) -> Ok(a.n + 1, Node("opt", <<a.e>>))
         [] OTHER -> a

Prefixed(q, n) ==
  IF ~Is(q, n, {"!", "&"}) THEN Suffixed(q, n)
  ELSE LET a == Suffixed(q, n + 1) IN
       IF a.o = "none" THEN Stop("bad") ELSE IF a.o # "ok" THEN a
       ELSE Ok(a.n, Node(IF T(q, n) = "!" THEN "not" ELSE "and", <<a.e>>))

TypedExpr(q, n) ==
  LET a == Prefixed(q, n) IN
  IF a.o \notin {"ok", "none"} THEN a
  ELSE LET t == TypeOf(q, a.n) IN
       IF t.o # "ok" THEN t
       ELSE IF a.o = "none" THEN IF t.e = "infer" THEN a ELSE Stop("bad")
       ELSE Ok(t.n, Typed(a.e, t.e))

SeqFrom(q, n, es) ==
  LET a == TypedExpr(q, n) IN
  IF a.o = "ok" THEN SeqFrom(q, a.n, Append(es, a.e))
  ELSE IF a.o # "none" THEN a
  ELSE IF es = <<>> THEN Stop("bad")
  ELSE Ok(n, IF Len(es) = 1 THEN es[1] ELSE Node("seq", es))

Spanned(q, n) ==
  LET a == SeqFrom(q, IF Is(q, n, {"..", "..."}) THEN n + 1 ELSE n, <<>>) IN
  IF a.o # "ok" THEN a
  ELSE CASE Is(q, n, {"..."}) -> Ok(a.n, Node("rng", <<Asc(a.e, "unit")>>))
         [] Is(q, n, {".."}) -> Ok(a.n, Node("span", <<a.e>>))
         [] OTHER -> a

Alt(q, n) ==
  LET a == Spanned(q, n) IN
  IF a.o # "ok" \/ ~Is(q, a.n, {">"}) THEN a
  ELSE LET box == Is(q, a.n + 1, {"box"})
           m == IF box THEN a.n + 2 ELSE a.n + 1
       IN IF Is(q, m, {"id"}) THEN Ok(m + 1, [k |-> "act", c |-> <<a.e>>, name |-> q[m].s, box |-> box]) ELSE Stop("bad")

Choice(q, n, es) ==
  LET a == Alt(q, n) IN
  IF a.o # "ok" THEN a
  ELSE IF Is(q, a.n, {"/"}) THEN Choice(q, a.n + 1, Append(es, a.e))
  ELSE Ok(a.n, IF es = <<>> THEN a.e ELSE Node("cho", Append(es, a.e)))

(* ---- Grammars -------------------------------------------------------------------- *)
RECURSIVE Attrs(_, _)
Attrs(q, n) == IF Is(q, n, {"attr"}) THEN Attrs(q, n + 1) ELSE n

RECURSIVE Blocks(_, _, _)
\* the rules [name, e, at] of the grammar
Blocks(q, n, rules) ==
  LET m == Attrs(q, n) IN
  IF Is(q, m, {"end"}) THEN IF m = n THEN [o |-> "ok", rules |-> rules] ELSE [o |-> "odd", rules |-> <<>>]
  ELSE LET s == StartsRule(q, m) IN
  IF s = "odd" THEN [o |-> "odd", rules |-> <<>>]
  ELSE IF s = "yes"
       THEN LET t == TypeOf(q, m + 1)
                r == Choice(q, t.n + 1, <<>>)
            IN IF r.o # "ok" THEN [o |-> r.o, rules |-> <<>>]
               ELSE Blocks(q, r.n, Append(rules, [name |-> q[m].s, e |-> Typed(r.e, t.e), at |-> m]))
  ELSE IF Is(q, m, {"item"}) THEN Blocks(q, m + 1, rules)
  ELSE [o |-> "bad", rules |-> <<>>]

(* ---- Names -------------------------------------------------------------------------- *)
Duplicates(rules) == {r \in 1..Len(rules) : \E p \in 1..(r - 1) : rules[p].name = rules[r].name}
\* names of Rust functions: items with a text
FnNames(q) == SelectSeq(q, LAMBDA x : x.t = "item" /\ x.s # "")
RECURSIVE Calls(_)
Calls(e) == (IF e.k = "call" THEN {e.name} ELSE {}) \cup UNION {Calls(e.c[n]) : n \in 1..Len(e.c)}

\* "bad": refused; "norule"; "dup": duplicated rules or functions; "undef": unknown rules; "ok"
Read(q) ==
  LET b == Blocks(q, 1, <<>>)
      fs == FnNames(q)
      names == {b.rules[r].name : r \in 1..Len(b.rules)}
      dups == Duplicates(b.rules)
      fdup == \E m, p \in 1..Len(fs) : m < p /\ fs[m].s = fs[p].s
      unknown == UNION {Calls(b.rules[r].e) : r \in 1..Len(b.rules)} \ names
  IN [o |-> IF b.o # "ok" THEN b.o
            ELSE IF b.rules = <<>> THEN "norule"
            ELSE IF dups # {} \/ fdup THEN "dup"
            ELSE IF unknown # {} THEN "undef" ELSE "ok",
      rules |-> b.rules, dups |-> dups, fdup |-> fdup, attrs |-> Cardinality({n \in 1..Len(q) : q[n].t = "attr" /\ q[n].s = ""})]
=============================================================================
