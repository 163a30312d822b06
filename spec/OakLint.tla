------------------------------ MODULE OakLint ------------------------------
(* Warnings about unnecessary chaining of predicates and repetitions.
   A warning is <<outer, inner, r>>: an expression outer(inner(e)) of rule r.   *)
EXTENDS OakAst

LOp(x) == IF x.k \in {"and", "not", "opt", "plus", "star"} THEN x.k ELSE "none"

\* The operator at the top of node i, [op, cross]; cross: a rule call was followed.
RECURSIVE TopOp(_, _)
TopOp(g, i) ==
  LET x == g.x[i] IN
  CASE x.k \in {"and", "not", "opt", "plus", "star"} -> [op |-> x.k, cross |-> FALSE]
    [] x.k = "nt" -> [op |-> TopOp(g, Body(g, x.r)).op, cross |-> TRUE]
    [] x.k = "cho" ->
         LET ops == [n \in 1..Len(x.c) |-> TopOp(g, x.c[n])] IN
         IF \A n \in 1..Len(x.c) : ops[n].op = "and"
         THEN [op |-> "and", cross |-> \E n \in 1..Len(x.c) : ops[n].cross]
         ELSE [op |-> "none", cross |-> FALSE]
    [] x.k \in {"act", "asc", "span", "rng"} -> TopOp(g, x.c[1])
    [] OTHER -> [op |-> "none", cross |-> FALSE]

\* Chains that are reported: the rewriting does not require to change another rule
\* unless the rewritten expression is the callee itself.
Chained(outer, inner, cross) ==
  \/ <<outer, inner>> \in {<<"and", "and">>, <<"and", "not">>, <<"opt", "opt">>, <<"opt", "star">>,
                           <<"plus", "plus">>, <<"star", "plus">>, <<"star", "star">>}
  \/ ~cross /\ <<outer, inner>> \in {<<"not", "not">>, <<"not", "and">>, <<"opt", "plus">>}

RECURSIVE LintExpr(_, _, _)
LintExpr(g, i, r) ==
  LET x == g.x[i] IN
  IF LOp(x) # "none"
  THEN LET top == TopOp(g, x.c[1]) IN
       IF Chained(x.k, top.op, top.cross) THEN {<<x.k, top.op, r>>}
       ELSE LintExpr(g, x.c[1], r)
  ELSE UNION {LintExpr(g, x.c[n], r) : n \in 1..Len(x.c)}

Lint(g) == UNION {LintExpr(g, Body(g, r), r) : r \in 1..NRules(g)}

\* The suggested operator: outer(inner(e)) ~~~> rewrite(e)
Rewrite(outer, inner) ==
  CASE outer = "not" /\ inner = "not" -> "and"
    [] outer = "and" -> inner
    [] outer = "not" /\ inner = "and" -> "not"
    [] outer = "opt" /\ inner = "plus" -> "star"
    [] outer = "opt" -> inner
    [] outer = "plus" -> "plus"
    [] outer = "star" -> "star"
=============================================================================
