------------------------------ MODULE OakTyping ------------------------------
(* Types of the expressions of a well-formed grammar.

   A type is a record with a tag t:
     "infer"            not typed yet
     "rec"  ps          part of a recursive cycle; ps = sequence of [poly, path]
     "inv"              (^)  invisible: literals and predicates
     "extn"             result of an external rule or of an unknown function
     "unit"  "atom"     ()   char
     "opt" e, "list" e  Option<type of e>, Vec<type of e>
     "tup"  es          tuple of the types of the nodes es
     "rust" s           a Rust type, s is its name
   Types refer to nodes; node Len(g.x)+1 stands for the type of spans.

   Surface gives a type to the rules without looking under annotations and
   actions; Depth then goes down, propagates the unit contexts, and checks the
   annotations.  Errors are <<kind, r>> with r the rule of the reported node.  *)
EXTENDS OakAst

T(t) == [t |-> t]
TList(e) == [t |-> "list", e |-> e]
TOpt(e)  == [t |-> "opt", e |-> e]
TTup(es) == [t |-> "tup", es |-> es]
TRust(s) == [t |-> "rust", s |-> s]
TRec(ps) == [t |-> "rec", ps |-> ps]

SpanNode(g) == Len(g.x) + 1

Ascribed(x) == IF x.t = "rust" THEN TRust(x.s) ELSE T(x.t)

IsUnitKind(ty) == ty.t \in {"inv", "unit"}

(* ---- Recursive paths --------------------------------------------------- *)
RECURSIVE UnionPaths(_, _)
UnionPaths(a, b) ==
  IF b = <<>> THEN a
  ELSE UnionPaths(IF \E n \in 1..Len(a) : a[n] = Head(b) THEN a ELSE Append(a, Head(b)), Tail(b))
ToPoly(ps) == [n \in 1..Len(ps) |-> [ps[n] EXCEPT !.poly = TRUE]]
HasPoly(ps) == \E n \in 1..Len(ps) : ps[n].poly

(* ---- Structural equality of types ------------------------------------- *)
RECURSIVE SameType(_, _, _)
SameType(ty, a, b) ==
  IF a.t # b.t THEN FALSE
  ELSE CASE a.t = "rec" -> a.ps = b.ps
         [] a.t \in {"opt", "list"} -> SameType(ty, ty[a.e], ty[b.e])
         [] a.t = "tup" -> /\ Len(a.es) = Len(b.es)
                           /\ \A n \in 1..Len(a.es) : SameType(ty, ty[a.es[n]], ty[b.es[n]])
         [] a.t = "infer" -> FALSE
         [] OTHER -> TRUE          \* all the Rust types are equal here: left to rustc

RECURSIVE HasExternal(_, _)
HasExternal(ty, a) ==
  CASE a.t = "extn" -> TRUE
    [] a.t \in {"opt", "list"} -> HasExternal(ty, ty[a.e])
    [] a.t = "tup" -> \E n \in 1..Len(a.es) : HasExternal(ty, ty[a.es[n]])
    [] OTHER -> FALSE

(* ---- Reduction --------------------------------------------------------- *)
RECURSIVE InlineTuples(_, _)
InlineTuples(ty, es) ==
  IF es = <<>> THEN <<>>
  ELSE LET a == ty[Head(es)] IN
       (IF a.t = "tup" THEN a.es ELSE <<Head(es)>>) \o InlineTuples(ty, Tail(es))

RECURSIVE TupleRec(_, _)
TupleRec(ty, es) ==
  IF es = <<>> THEN <<>>
  ELSE LET a == ty[es[Len(es)]]
           before == TupleRec(ty, SubSeq(es, 1, Len(es) - 1))
       IN IF a.t = "rec" THEN UnionPaths(before, a.ps) ELSE before

ReduceTuple(ty, es0) ==
  LET es   == InlineTuples(ty, es0)
      ps   == TupleRec(ty, es)
      poly == \E n \in 1..Len(es) : ty[es[n]].t \notin {"rec", "inv", "unit", "infer"}
  IN IF ps # <<>> THEN TRec(IF poly THEN ToPoly(ps) ELSE ps)
     ELSE LET vis == SelectSeq(es, LAMBDA e : ty[e].t # "inv") IN
          IF vis = <<>> THEN T("inv")
          ELSE LET val == SelectSeq(vis, LAMBDA e : ty[e].t # "unit") IN
               IF val = <<>> THEN T("unit")
               ELSE IF Len(val) = 1 THEN ty[val[1]]
               ELSE TTup(val)

Reduce(ty, a) ==
  CASE a.t \in {"opt", "list"} ->
         IF ty[a.e].t = "inv" THEN T("inv")
         ELSE IF ty[a.e].t = "rec" THEN TRec(ToPoly(ty[a.e].ps)) ELSE a
    [] a.t = "tup" -> ReduceTuple(ty, a.es)
    [] OTHER -> a

\* First type of a rule on a recursive path that is not itself recursive.
RECURSIVE FirstRuleType(_, _, _)
FirstRuleType(g, ty, rs) ==
  IF rs = <<>> THEN T("inv")
  ELSE LET a == ty[Body(g, Head(rs))] IN IF a.t # "rec" THEN a ELSE FirstRuleType(g, ty, Tail(rs))

ReduceRec(g, ty, a) ==
  IF a.t # "rec" THEN a
  ELSE IF HasPoly(a.ps) THEN T("inv")
  ELSE FirstRuleType(g, ty, FlattenSeq([n \in 1..Len(a.ps) |-> a.ps[n].path]))

RECURSIVE RecPaths(_)
RecPaths(tys) ==
  IF tys = <<>> THEN <<>>
  ELSE LET a == tys[Len(tys)]
           before == RecPaths(SubSeq(tys, 1, Len(tys) - 1))
       IN IF a.t = "rec" THEN UnionPaths(before, a.ps) ELSE before

RECURSIVE NonRec(_, _)
NonRec(ty, tys) ==
  IF tys = <<>> THEN <<>>
  ELSE LET a == tys[Len(tys)]
           before == NonRec(ty, SubSeq(tys, 1, Len(tys) - 1))
       IN IF a.t = "rec" \/ \E n \in 1..Len(before) : SameType(ty, a, before[n]) THEN before
          ELSE Append(before, a)

\* Common type of the branches of a choice: [ok, ty].
ReduceSum(ty, tys) ==
  LET ps == RecPaths(tys)
      ns == NonRec(ty, tys)
      good(a) == [ok |-> TRUE, ty |-> a]
  IN IF HasPoly(ps) THEN [ok |-> FALSE, ty |-> T("inv")]
     ELSE IF Len(ns) = 1 THEN good(ns[1])
     ELSE IF Len(ns) = 2 /\ ns[1].t = "extn" THEN good(ns[2])
     ELSE IF Len(ns) = 2 /\ ns[2].t = "extn" THEN good(ns[1])
     ELSE IF ns = <<>> THEN good(TRec(ps))
     ELSE IF \A n \in 1..Len(ns) : IsUnitKind(ns[n]) THEN good(T("inv"))
     ELSE [ok |-> FALSE, ty |-> T("inv")]

(* ---- Surface ------------------------------------------------------------
   State: ty (types of the nodes), path (rules being visited), errs, warn (entry
   points of the recursive types replaced by the unit type).                  *)
TState(g) == [ty |-> [i \in 1..(Len(g.x) + 1) |->
                        IF i = SpanNode(g) THEN TRust("Span") ELSE T("infer")],
              path |-> <<>>, errs |-> {}, fatal |-> FALSE, warn |-> {}]

TRet(st, a) == [st |-> st, ty |-> a]

RECURSIVE SRule(_, _, _)
RECURSIVE SExpr(_, _, _, _)
RECURSIVE SExprs(_, _, _, _, _)

ActionType(g, x) ==
  LET f == g.fns[x.fn] IN
  CASE f.ret = "none" -> T("unit")
    [] f.ret = "extn" -> T("extn")
    [] OTHER -> TRust(IF x.box THEN "Box<" \o f.ret \o ">" ELSE f.ret)

PolyEntries(ps) == {ps[n].path[1] : n \in {m \in 1..Len(ps) : ps[m].poly}}

SRule(g, st, r) ==
  LET a == st.ty[Body(g, r)] IN
  IF a.t # "infer" THEN TRet(st, a)
  ELSE IF \E n \in 1..Len(st.path) : st.path[n] = r
  THEN LET n == CHOOSE n \in 1..Len(st.path) : st.path[n] = r
           since == [m \in 1..(Len(st.path) - n) |-> st.path[Len(st.path) + 1 - m]]
       IN TRet(st, TRec(<< [poly |-> FALSE, path |-> <<r>> \o since] >>))
  ELSE LET res == SExpr(g, [st EXCEPT !.path = Append(@, r)], Body(g, r), r)
           st1 == [res.st EXCEPT !.path = st.path]
           b   == IF res.ty.t = "rec" /\ res.ty.ps[1].path[1] = r
                     /\ (HasPoly(res.ty.ps) \/ \A n \in 1..Len(res.ty.ps) : res.ty.ps[n].path[1] = r)
                  THEN ReduceRec(g, st1.ty, res.ty) ELSE res.ty
           w   == IF res.ty.t = "rec" /\ b.t = "inv" THEN PolyEntries(res.ty.ps) ELSE {}
       IN TRet([st1 EXCEPT !.ty[Body(g, r)] = b, !.warn = @ \cup w], b)

SExprs(g, st, cs, r, acc) ==
  IF cs = <<>> THEN [st |-> st, tys |-> acc]
  ELSE LET res == SExpr(g, st, Head(cs), r) IN SExprs(g, res.st, Tail(cs), r, Append(acc, res.ty))

SExpr(g, st, i, r) ==
  IF st.ty[i].t # "infer" THEN TRet(st, st.ty[i])
  ELSE
  LET x == g.x[i]
      one(mk) == LET res == SExpr(g, st, x.c[1], r) IN TRet(res.st, mk)
      raw ==
        CASE x.k \in {"lit", "not", "and"} -> TRet(st, T("inv"))
          [] x.k \in {"any", "cls"} -> TRet(st, T("atom"))
          [] x.k = "nt"  -> SRule(g, st, x.r)
          [] x.k = "ext" -> TRet(st, T("extn"))
          [] x.k = "asc" -> TRet(st, Ascribed(x))
          [] x.k = "act" ->
               LET st1 == IF g.fns[x.fn].ret \in {"none", "()"}
                          THEN [st EXCEPT !.errs = @ \cup {<<"unitaction", r>>}] ELSE st
               IN TRet(st1, ActionType(g, x))
          [] x.k \in {"star", "plus"} -> one(TList(x.c[1]))
          [] x.k = "opt"  -> one(TOpt(x.c[1]))
          [] x.k = "span" -> one(TTup(<<SpanNode(g), x.c[1]>>))
          [] x.k = "rng"  -> one(TRust("Range"))
          [] x.k = "seq"  -> LET res == SExprs(g, st, x.c, r, <<>>) IN TRet(res.st, TTup(x.c))
          [] OTHER ->
               LET res == SExprs(g, st, x.c, r, <<>>)
                   sum == ReduceSum(res.st.ty, res.tys)
               IN IF sum.ok THEN TRet(res.st, sum.ty)
                  ELSE TRet([res.st EXCEPT !.errs = @ \cup {<<"mismatch", r>>}, !.fatal = TRUE], T("inv"))
      a == Reduce(raw.st.ty, raw.ty)
  IN TRet([raw.st EXCEPT !.ty[i] = a], a)

RECURSIVE SRules(_, _, _)
SRules(g, st, r) == IF r > NRules(g) THEN st ELSE SRules(g, SRule(g, st, r).st, r + 1)

(* ---- Recursive types ----------------------------------------------------
   A recursive rule takes the type of another rule of its cycles, or (^).     *)
RECURSIVE RecRulesFrom(_, _, _)
RecRulesFrom(g, ty, r) ==
  IF r > NRules(g) THEN ty
  ELSE LET b == Body(g, r)
           a == IF ty[b].t = "rec" THEN ReduceRec(g, ty, ty[b]) ELSE T("inv")
       IN RecRulesFrom(g, IF ty[b].t = "rec" /\ a.t # "inv" THEN [ty EXCEPT ![b] = a] ELSE ty, r + 1)
RECURSIVE RecRules(_, _)
RecRules(g, ty) == LET ty2 == RecRulesFrom(g, ty, 1) IN IF ty2 = ty THEN ty ELSE RecRules(g, ty2)

\* Calls, sequences and branches whose type is not the one given by the cycle, where the type matters.
\* ty0: types before the reduction; ty: after.
RECURSIVE BadRecs(_, _, _, _)
BadRecs(g, ty0, ty, i) ==
  LET x == g.x[i]
      was(j) == ty0[j].t = "rec"
      bad(a) == ~SameType(ty, a, ty[i])
      below == UNION {BadRecs(g, ty0, ty, x.c[n]) : n \in DOMAIN x.c}
  IN IF IsUnitKind(ty[i]) THEN {}
     ELSE CASE x.k = "nt"  -> IF was(i) /\ bad(ty[Body(g, x.r)]) THEN {i} ELSE {}
            [] x.k = "seq" -> below \cup (IF was(i) /\ bad(ReduceTuple(ty, x.c)) THEN {i} ELSE {})
            [] x.k = "cho" -> below \cup {x.c[n] : n \in {m \in DOMAIN x.c : was(x.c[m]) /\ bad(ty[x.c[m]])}}
            [] x.k \in {"star", "plus", "opt", "span"} -> below
            [] OTHER -> {}

(* ---- Depth -------------------------------------------------------------- *)
NoAsc == [t |-> "noasc"]

RECURSIVE DExpr(_, _, _, _, _, _)
RECURSIVE DChildren(_, _, _, _, _, _)
RECURSIVE DSeq(_, _, _, _, _, _)
RECURSIVE DWalk(_, _, _, _, _, _)

TypeError(st, r) == [st EXCEPT !.errs = @ \cup {<<"expected", r>>}, !.fatal = TRUE]

DExpr(g, st, i, r, uu, asc) ==
  LET a == st.ty[i] IN
  IF uu THEN DWalk(g, [st EXCEPT !.ty[i] = T("unit")], i, r, uu, asc)
  ELSE IF IsUnitKind(a) /\ asc.t = "noasc" THEN DWalk(g, st, i, r, TRUE, asc)
  ELSE LET st1 == IF asc.t = "noasc" THEN st
                  ELSE IF a.t = "extn" THEN [st EXCEPT !.ty[i] = asc]
                  ELSE IF ~SameType(st.ty, a, asc) THEN TypeError(st, r) ELSE st
       IN DWalk(g, st1, i, r, uu, asc)

DChildren(g, st, cs, r, uu, asc) ==
  IF cs = <<>> THEN st ELSE DChildren(g, DExpr(g, st, Head(cs), r, uu, asc), Tail(cs), r, uu, asc)

DSeq(g, st, cs, r, uu, asc) ==
  IF cs = <<>> THEN st
  ELSE LET st1 == DExpr(g, st, Head(cs), r, uu, IF IsUnitKind(st.ty[Head(cs)]) THEN NoAsc ELSE asc)
       IN DSeq(g, st1, Tail(cs), r, uu, asc)

DWalk(g, st, i, r, uu, asc) ==
  LET x == g.x[i] IN
  CASE x.k \in {"lit", "any", "cls", "nt", "ext"} -> st
    [] x.k = "seq" -> IF asc.t = "noasc" THEN DChildren(g, st, x.c, r, uu, asc) ELSE DSeq(g, st, x.c, r, uu, asc)
    [] x.k = "asc" ->
         LET ty  == Ascribed(x)
             st1 == IF asc.t # "noasc" /\ ~SameType(st.ty, ty, asc) THEN TypeError(st, r) ELSE st
             st2 == IF uu THEN st1 ELSE SExpr(g, st1, x.c[1], r).st
         IN DExpr(g, st2, x.c[1], r, uu, ty)
    [] x.k = "act" -> DExpr(g, SExpr(g, st, x.c[1], r).st, x.c[1], r, uu, NoAsc)
    [] OTHER -> DChildren(g, st, x.c, r, uu, asc)

RECURSIVE DRules(_, _, _)
DRules(g, st, r) ==
  IF r > NRules(g) THEN st ELSE DRules(g, DExpr(g, st, Body(g, r), r, FALSE, NoAsc), r + 1)

Final(a) == IF a.t = "inv" THEN T("unit") ELSE IF a.t = "extn" THEN TRust("_") ELSE a

(* ---- The typing of a grammar --------------------------------------------
   [ok, errs, ty, warn]: warn = rules entry points of the recursive types replaced by (^).  *)
Typing(g) ==
  LET s1 == SRules(g, TState(g), 1)
      recs == RecPaths([r \in 1..NRules(g) |-> s1.ty[Body(g, r)]])
      warn == s1.warn \cup PolyEntries(recs)
  IN IF s1.fatal THEN [ok |-> FALSE, errs |-> s1.errs, ty |-> s1.ty, warn |-> {}, raw |-> s1.ty]
     ELSE LET rr == RecRules(g, s1.ty)
              s2 == [s1 EXCEPT !.ty = [i \in DOMAIN rr |-> ReduceRec(g, rr, rr[i])]]
              bad == UNION {BadRecs(g, s1.ty, s2.ty, Body(g, r)) : r \in 1..NRules(g)}
              s3 == IF bad # {} THEN [s2 EXCEPT !.errs = @ \cup {<<"expected", RuleOf(g, i)>> : i \in bad}, !.fatal = TRUE]
                    ELSE DRules(g, s2, 1)
              ext == {r \in 1..NRules(g) : HasExternal(s3.ty, s3.ty[Body(g, r)])}
              errs == s3.errs \cup (IF s3.fatal THEN {} ELSE {<<"noinfer", r>> : r \in ext})
          IN [ok |-> errs = {}, errs |-> errs, warn |-> warn, raw |-> s3.ty,
              ty |-> [i \in DOMAIN s3.ty |-> Final(s3.ty[i])]]

(* ---- Coherence ----------------------------------------------------------
   What the generated code relies on: below a rule, as long as the types matter,
   the type of an expression is the one its operands give.  The nodes that break
   this; there are none in a grammar that is accepted (checked on every grammar
   that is judged).  The result of external rules and functions fits anywhere.   *)
Fits(ty, a, b) == a = TRust("_") \/ b = TRust("_") \/ SameType(ty, a, b)
RECURSIVE Incoherent(_, _, _)
Incoherent(g, ty, i) ==
  LET x == g.x[i]
      a == ty[i]
      below == UNION {Incoherent(g, ty, x.c[n]) : n \in DOMAIN x.c}
      \* the annotation gives its type to an external operand
      open == \E n \in DOMAIN x.c : HasExternal(ty, ty[x.c[n]]) \/ ty[x.c[n]] = TRust("_")
      ok == CASE x.k = "nt" -> Fits(ty, a, ty[Body(g, x.r)])
              [] x.k = "seq" -> open \/ Fits(ty, a, ReduceTuple(ty, x.c))
              [] x.k = "span" -> open \/ Fits(ty, a, ReduceTuple(ty, <<SpanNode(g), x.c[1]>>))
              [] x.k = "cho" -> \A n \in DOMAIN x.c : Fits(ty, a, ty[x.c[n]])
              [] x.k \in {"star", "plus"} -> open \/ Fits(ty, a, TList(x.c[1]))
              [] x.k = "opt" -> open \/ Fits(ty, a, TOpt(x.c[1]))
              [] x.k = "asc" -> Fits(ty, a, Ascribed(x)) /\ Fits(ty, a, ty[x.c[1]])
              [] OTHER -> TRUE
  IN IF a.t = "unit" THEN {} ELSE below \cup (IF ok THEN {} ELSE {i})

(* ---- Final types as seen from Rust --------------------------------------
   Tokens: char <<1>>  Option <<2>>  Vec <<4>>  tuple <<5,n>>  () <<6>>
   node <<7>>  Span <<8>>  Range <<9>>  Box<node> <<10, 7>>  other <<11>>      *)
RECURSIVE TypeTokens(_, _)
TypeTokens(ty, a) ==
  CASE a.t = "atom" -> <<1>>
    [] a.t = "opt"  -> <<2>> \o TypeTokens(ty, ty[a.e])
    [] a.t = "list" -> <<4>> \o TypeTokens(ty, ty[a.e])
    [] a.t = "tup"  -> <<5, Len(a.es)>> \o FlattenSeq([n \in 1..Len(a.es) |-> TypeTokens(ty, ty[a.es[n]])])
    [] a.t = "unit" -> <<6>>
    [] a.t = "rust" -> (CASE a.s = "Node" -> <<7>> [] a.s = "Span" -> <<8>> [] a.s = "Range" -> <<9>>
                          [] a.s = "Box<Node>" -> <<10, 7>> [] a.s = "char" -> <<1>>
                          [] a.s = "Vec<char>" -> <<4, 1>> [] a.s = "Vec<Node>" -> <<4, 7>>
                          [] a.s = "Option<char>" -> <<2, 1>> [] a.s = "(char,char)" -> <<5, 2, 1, 1>>
                          [] OTHER -> <<11>>)
    [] OTHER -> <<12>>

Card(a) == IF a.t = "unit" THEN 0 ELSE IF a.t = "tup" THEN Len(a.es) ELSE 1

(* All the Rust types are equal for Oak: the nodes where different ones meet, that
   rustc refuses.                                                               *)
RECURSIVE Mixed(_, _, _)
Mixed(g, ty, i) ==
  LET x == g.x[i]
      below == UNION {Mixed(g, ty, x.c[n]) : n \in DOMAIN x.c}
      meets(a, b) == SameType(ty, a, b) /\ TypeTokens(ty, a) # TypeTokens(ty, b)
  IN IF ty[i].t = "unit" THEN {}
     ELSE below \cup (IF x.k = "cho" /\ \E n \in DOMAIN x.c : meets(ty[i], ty[x.c[n]]) THEN {i} ELSE {})
=============================================================================
