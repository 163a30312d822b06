------------------------------- MODULE OakSem -------------------------------
(* Reference semantics: parsing expressions as partial functions from an input
   position to (success, position, error report, values, actions called).

   gs   : all the grammars (for external rules).  Their nodes have two more
          fields: u, the expression has type (); iv, the intervals of a class
   inp  : [s |-> code points, off |-> byte offsets]
   mode : "P" (parser: builds values, calls actions) or "R" (recognizer)

   A value is a sequence of integers (tokens, prefix notation):
     char <<1,c>>  None <<2>>  Some <<3>>v  Vec <<4,n>>v..  tuple <<5,n>>v..
     () <<6>>  action result <<7,fn,n>>args..  span <<8,lo,hi>>
     range <<9,lo,hi>>  Box <<10>>v
   The error report is [far, exp]: the farthest position where an expression
   failed, and the items expected there.                                     *)
EXTENDS OakAst

TupleValue(vs) ==
  IF Len(vs) = 0 THEN <<6>>
  ELSE IF Len(vs) = 1 THEN vs[1]
  ELSE <<5, Len(vs)>> \o FlattenSeq(vs)

Report(er, p, item) ==
  IF p > er.far THEN [far |-> p, exp |-> {item}]
  ELSE IF p = er.far THEN [far |-> p, exp |-> er.exp \cup {item}]
  ELSE er

Ok(p, er, v, log) == [ok |-> TRUE, p |-> p, er |-> er, v |-> v, log |-> log]
Fail(p, er, log)  == [ok |-> FALSE, p |-> p, er |-> er, v |-> <<>>, log |-> log]

IsPrefixAt(s, p, lit) ==
  p + Len(lit) <= Len(s) /\ \A n \in 1..Len(lit) : s[p + n] = lit[n]

RECURSIVE Eval(_, _, _, _, _, _, _)
RECURSIVE EvalSeq(_, _, _, _, _, _, _, _)
RECURSIVE EvalCho(_, _, _, _, _, _, _, _, _)
RECURSIVE EvalLoop(_, _, _, _, _, _, _, _, _, _)

Eval(gs, gi, inp, i, p, er, mode0) ==
  LET x == gs[gi].x[i]
      mode == IF mode0 = "P" /\ x.u THEN "R" ELSE mode0
      sub(j, q, m) == Eval(gs, gi, inp, j, q, er, m)
  IN
  CASE x.k = "lit" ->
         IF IsPrefixAt(inp.s, p, x.s) THEN Ok(p + Len(x.s), er, <<>>, <<>>)
         ELSE Fail(p, Report(er, p, x.s), <<>>)
    [] x.k = "any" ->
         IF p < Len(inp.s) THEN Ok(p + 1, er, IF mode = "P" THEN << <<1, inp.s[p+1]>> >> ELSE <<>>, <<>>)
         ELSE Fail(p, Report(er, p, AnyText), <<>>)
    [] x.k = "cls" ->
         IF p < Len(inp.s) /\ InClass(x.iv, inp.s[p+1])
         THEN Ok(p + 1, er, IF mode = "P" THEN << <<1, inp.s[p+1]>> >> ELSE <<>>, <<>>)
         ELSE Fail(p, Report(er, p, ClassText(x.iv)), <<>>)
    [] x.k = "nt" -> sub(Body(gs[gi], x.r), p, mode)
    [] x.k = "ext" ->
         LET res == Eval(gs, x.g, inp, Body(gs[x.g], x.r), p, er, mode) IN
         IF res.ok /\ mode = "P" THEN [res EXCEPT !.v = << TupleValue(res.v) >>] ELSE res
    [] x.k = "seq" -> EvalSeq(gs, gi, inp, x.c, 1, p, Ok(p, er, <<>>, <<>>), mode)
    [] x.k = "cho" -> EvalCho(gs, gi, inp, x.c, 1, p, er, <<>>, mode)
    [] x.k = "star" -> EvalLoop(gs, gi, inp, x.c[1], p, er, <<>>, 0, <<>>, mode)
    [] x.k = "plus" ->
         LET res == EvalLoop(gs, gi, inp, x.c[1], p, er, <<>>, 0, <<>>, mode) IN
         IF res.n = 0 THEN Fail(p, res.er, res.log) ELSE res
    [] x.k = "opt" ->
         LET res == sub(x.c[1], p, mode) IN
         IF res.ok THEN [res EXCEPT !.v = IF mode = "P" THEN << <<3>> \o TupleValue(res.v) >> ELSE <<>>]
         ELSE Ok(p, res.er, IF mode = "P" THEN << <<2>> >> ELSE <<>>, res.log)
    [] x.k = "and" ->
         LET res == sub(x.c[1], p, "R") IN
         IF res.ok THEN Ok(p, res.er, <<>>, res.log) ELSE Fail(p, res.er, res.log)
    [] x.k = "not" ->
         LET res == sub(x.c[1], p, "R") IN
         IF res.ok THEN Fail(p, res.er, res.log) ELSE Ok(p, res.er, <<>>, res.log)
    [] x.k = "act" ->
         LET res == sub(x.c[1], p, mode) IN
         IF res.ok /\ mode = "P"
         THEN LET args == FlattenSeq(res.v)
                  node == <<7, x.fn, Len(res.v)>> \o args
                  called == gs[gi].fns[x.fn].kind = "fn"
              IN [res EXCEPT !.v = << IF x.box THEN <<10>> \o node ELSE node >>,
                             !.log = IF called THEN Append(res.log, node) ELSE res.log]
         ELSE res
    [] x.k = "asc" -> sub(x.c[1], p, mode)
    [] x.k = "span" ->
         LET res == sub(x.c[1], p, mode) IN
         IF res.ok /\ mode = "P"
         THEN [res EXCEPT !.v = << <<8, inp.off[p+1], inp.off[res.p+1]>> >> \o res.v]
         ELSE res
    [] x.k = "rng" ->
         LET res == sub(x.c[1], p, "R") IN
         IF res.ok /\ mode = "P"
         THEN [res EXCEPT !.v = << <<9, inp.off[p+1], inp.off[res.p+1]>> >>]
         ELSE res

\* acc = result of the prefix of the sequence already matched
EvalSeq(gs, gi, inp, cs, n, p0, acc, mode) ==
  IF n > Len(cs) THEN acc
  ELSE LET res == Eval(gs, gi, inp, cs[n], acc.p, acc.er, mode) IN
       IF res.ok THEN EvalSeq(gs, gi, inp, cs, n + 1, p0,
                              Ok(res.p, res.er, acc.v \o res.v, acc.log \o res.log), mode)
       ELSE Fail(p0, res.er, acc.log \o res.log)

EvalCho(gs, gi, inp, cs, n, p, er, log, mode) ==
  IF n > Len(cs) THEN Fail(p, er, log)
  ELSE LET res == Eval(gs, gi, inp, cs[n], p, er, mode) IN
       IF res.ok THEN [res EXCEPT !.log = log \o res.log]
       ELSE EvalCho(gs, gi, inp, cs, n + 1, p, res.er, log \o res.log, mode)

EvalLoop(gs, gi, inp, j, p, er, vs, n, log, mode) ==
  LET res == Eval(gs, gi, inp, j, p, er, mode) IN
  IF res.ok THEN EvalLoop(gs, gi, inp, j, res.p, res.er,
                          IF mode = "P" THEN vs \o TupleValue(res.v) ELSE vs, n + 1, log \o res.log, mode)
  ELSE [ok |-> TRUE, p |-> p, er |-> res.er, v |-> IF mode = "P" THEN << <<4, n>> \o vs >> ELSE <<>>,
        log |-> log \o res.log, n |-> n]

\* Outcome of rule r of grammar gi run from position p of the input.
RunRule(gs, gi, r, inp, p, mode) ==
  LET res == Eval(gs, gi, inp, Body(gs[gi], r), p, [far |-> p, exp |-> {}], mode) IN
  [ok |-> res.ok, p |-> res.p, far |-> res.er.far, exp |-> res.er.exp,
   v |-> IF res.ok THEN TupleValue(res.v) ELSE <<>>, log |-> res.log]
=============================================================================
