------------------------------- MODULE OakWF -------------------------------
(* Well-formedness of grammars: what the expressions of a grammar may do, and
   the grammars the generator must refuse.

   An abstraction of an expression is a record
     fail : it may fail            succ  : it may succeed
     cons : it always consumes when it succeeds
     none : it never consumes
   The rules are visited until a fixpoint; the visit of a rule follows the calls
   and carries the recursion path, to detect left recursion.

   An error is <<kind, r>> with r the rule that contains the reported expression;
   kind is "leftrec", "never", "always", "loop" or "unreach".                 *)
EXTENDS OakAst

Default == [fail |-> TRUE, succ |-> TRUE, cons |-> TRUE, none |-> FALSE]
AlwaysSucceed(never) == [fail |-> FALSE, succ |-> TRUE, cons |-> FALSE, none |-> never]

\* Visitor state: recursion path (with "consumed before the call" flags), whether
\* input was consumed in the current rule, rule abstractions, fixpoint flag,
\* nodes already reported, errors.
WFInit(g) == [path |-> <<>>, cons |-> FALSE, wfa |-> [r \in 1..NRules(g) |-> Default],
              fix |-> FALSE, seen |-> {}, errs |-> {}, wf |-> TRUE]

Ret(st, w) == [st |-> st, w |-> w]

\* Report an error, once per node `key`; `i` is the node the error points at.
Raise(st, kind, key, r) ==
  IF key \in st.seen THEN st
  ELSE [st EXCEPT !.seen = @ \cup {key}, !.errs = @ \cup {<<kind, r>>}, !.wf = FALSE]

PathIndex(st, r) == CHOOSE n \in 1..Len(st.path) : st.path[n][1] = r
OnPath(st, r)    == \E n \in 1..Len(st.path) : st.path[n][1] = r
ConsumedSince(st, r) ==
  \E n \in (PathIndex(st, r) + 1)..Len(st.path) : st.path[n][2]

RECURSIVE VisitRule(_, _, _)
RECURSIVE VisitExpr(_, _, _, _)
RECURSIVE VisitSeq(_, _, _, _, _, _)
RECURSIVE VisitCho(_, _, _, _, _, _, _)

VisitRule(g, st, r) ==
  IF OnPath(st, r)
  THEN LET st1 == IF ~ConsumedSince(st, r) /\ ~st.cons
                  THEN [Raise(st, "leftrec", Body(g, r), r) EXCEPT !.wf = FALSE] ELSE st
       IN Ret(st1, st1.wfa[r])
  ELSE LET in  == [st EXCEPT !.path = Append(@, <<r, st.cons>>), !.cons = FALSE]
           res == VisitExpr(g, in, Body(g, r), r)
           out == [res.st EXCEPT !.path = st.path, !.cons = st.cons]
           st2 == IF res.w # out.wfa[r] THEN [out EXCEPT !.fix = FALSE, !.wfa[r] = res.w] ELSE out
       IN Ret(st2, st2.wfa[r])

\* Visit node i of rule r.
VisitExpr(g, st, i, r) ==
  LET x == g.x[i]
      raw ==
        CASE x.k = "lit" -> Ret(st, IF x.s = <<>> THEN [Default EXCEPT !.fail = FALSE, !.cons = FALSE] ELSE Default)
          [] x.k \in {"any", "cls", "ext"} -> Ret(st, Default)
          [] x.k = "nt" -> VisitRule(g, st, x.r)
          [] x.k = "seq" -> VisitSeq(g, st, x.c, 1, [fail |-> FALSE, succ |-> TRUE, cons |-> FALSE, none |-> TRUE], r)
          [] x.k = "cho" -> VisitCho(g, st, i, x.c, 1, [fail |-> TRUE, succ |-> FALSE, cons |-> TRUE, none |-> TRUE], r)
          [] x.k \in {"star", "plus"} ->
               LET res == VisitExpr(g, st, x.c[1], r)
                   bad == res.w.succ /\ ~res.w.cons
                   st1 == IF bad THEN Raise(res.st, "loop", i, r) ELSE res.st
                   w   == IF bad THEN Default ELSE res.w
               IN Ret(st1, IF x.k = "star" THEN AlwaysSucceed(w.none) ELSE w)
          [] x.k = "opt" ->
               LET res == VisitExpr(g, st, x.c[1], r) IN Ret(res.st, AlwaysSucceed(res.w.none))
          [] x.k = "and" ->
               LET res == VisitExpr(g, st, x.c[1], r) IN
               Ret(res.st, [res.w EXCEPT !.cons = FALSE, !.none = TRUE])
          [] x.k = "not" ->
               LET res == VisitExpr(g, st, x.c[1], r) IN
               Ret(res.st, [fail |-> res.w.succ, succ |-> res.w.fail, cons |-> FALSE, none |-> TRUE])
          [] OTHER -> VisitExpr(g, st, x.c[1], r)   \* act, asc, span, rng
  IN IF raw.w.fail /\ ~raw.w.succ
     THEN Ret(Raise(raw.st, "never", i, r), [raw.w EXCEPT !.succ = TRUE])
     ELSE IF raw.w.succ /\ ~raw.w.fail /\ raw.w.none
     THEN Ret(Raise(raw.st, "always", i, r), [raw.w EXCEPT !.none = FALSE])
     ELSE raw

VisitSeq(g, st, cs, n, w, r) ==
  IF n > Len(cs) THEN Ret(st, w)
  ELSE LET res == VisitExpr(g, st, cs[n], r)
           w1  == [fail |-> w.fail \/ res.w.fail, succ |-> w.succ /\ res.w.succ,
                   cons |-> w.cons \/ res.w.cons, none |-> w.none /\ res.w.none]
           st1 == [res.st EXCEPT !.cons = @ \/ res.w.cons]
           rec == VisitSeq(g, st1, cs, n + 1, w1, r)
       IN Ret([rec.st EXCEPT !.cons = st.cons], rec.w)

VisitCho(g, st, i, cs, n, w, r) ==
  IF n > Len(cs) THEN Ret(st, w)
  ELSE LET res == VisitExpr(g, st, cs[n], r)
           w1  == [fail |-> w.fail /\ res.w.fail, succ |-> w.succ \/ res.w.succ,
                   cons |-> w.cons /\ res.w.cons, none |-> w.none /\ res.w.none]
           st1 == [res.st EXCEPT !.cons = st.cons]
       IN IF n # Len(cs) /\ ~res.w.fail
          THEN Ret(Raise(st1, "unreach", cs[n], r), w1)
          ELSE VisitCho(g, st1, i, cs, n + 1, w1, r)

RECURSIVE VisitRules(_, _, _)
VisitRules(g, st, r) ==
  IF r > NRules(g) \/ ~st.wf THEN st ELSE VisitRules(g, VisitRule(g, st, r).st, r + 1)

RECURSIVE WFFix(_, _)
WFFix(g, st) ==
  IF st.fix \/ ~st.wf THEN st ELSE WFFix(g, VisitRules(g, [st EXCEPT !.fix = TRUE], 1))

WF(g) == WFFix(g, WFInit(g))
WellFormed(g) == WF(g).wf
WFErrors(g) == WF(g).errs
=============================================================================
