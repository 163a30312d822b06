------------------------------- MODULE Theorems -------------------------------
(* What the specification implies, checked on every grammar of a small scope, every
   node of it, every input of a bounded length and every position of the input.
   A theorem that does not hold is printed with the grammar, the input, the node.

   Agreement   the parser and the recognizer of an expression succeed together, at
               the same position with the same error report; the recognizer has no
               value and calls no action
   Inhabits    the value of an expression has the type of the expression
   Order       positions and error reports only go forward; a failure moves nothing
   Frame       an error report found before an expression changes nothing but the
               report: the final report is the merge of both
   Laws        e+ = e e*,  e? = e / "",  &e = !!e,  e* = [e e*], sequences and
               choices are associative
   Soundness   what the analysis of well-formedness says of the rules is true
   Justified   an expression reported as never succeeding never does, one reported
               as always succeeding always does without reading, a branch reported
               as unreachable comes after a branch that never fails
   Rewriting   the rewriting suggested by a warning preserves the recognition      *)
EXTENDS OakSem, OakWF, OakTyping, OakLint, Json, IOUtils

Gs == JsonDeserialize(IOEnv.CASES)
MaxLen == atoi(IOEnv.MAXLEN)
Words == UNION {[1..n -> {97, 98}] : n \in 0..MaxLen}
Input(s) == [s |-> s, off |-> Offsets(s)]
Empty(p) == [far |-> p, exp |-> {}]

Used(g) == UNION {NodesBelow(g, Body(g, r)) : r \in 1..NRules(g)}
With(g, nodes) == [g EXCEPT !.x = g.x \o nodes]
N1(k, i) == [k |-> k, c |-> <<i>>, u |-> TRUE]
N2(k, i, j) == [k |-> k, c |-> <<i, j>>, u |-> TRUE]

Run(g, s, i, p, m) == Eval(<<g>>, 1, Input(s), i, p, Empty(p), m)
Same(a, b) == a.ok = b.ok /\ a.p = b.p
SameReport(a, b) == Same(a, b) /\ a.er = b.er

(* ---- Values and types -------------------------------------------------------- *)
\* The rest of the tokens v after a value of the type ts, at position n; 0: no such value.
RECURSIVE After(_, _, _, _)
RECURSIVE AfterMany(_, _, _, _, _)
RECURSIVE EndOfType(_, _)
RECURSIVE EndOfTypes(_, _, _)
\* the position after the type that starts at position m of ts
EndOfType(ts, m) ==
  CASE ts[m] \in {2, 4, 10} -> EndOfType(ts, m + 1)
    [] ts[m] = 5 -> EndOfTypes(ts, m + 2, ts[m + 1])
    [] OTHER -> m + 1
EndOfTypes(ts, m, k) == IF k = 0 THEN m ELSE EndOfTypes(ts, EndOfType(ts, m), k - 1)
RECURSIVE AfterAny(_, _)
RECURSIVE AfterAnys(_, _, _)
\* any value
AfterAny(v, n) ==
  CASE v[n] = 1 -> n + 2
    [] v[n] = 2 -> n + 1
    [] v[n] \in {3, 10} -> AfterAny(v, n + 1)
    [] v[n] \in {4, 5} -> AfterAnys(v, n + 2, v[n + 1])
    [] v[n] = 6 -> n + 1
    [] v[n] = 7 -> AfterAnys(v, n + 3, v[n + 2])
    [] OTHER -> n + 3
AfterAnys(v, n, k) == IF k = 0 THEN n ELSE AfterAnys(v, AfterAny(v, n), k - 1)
After(ts, m, v, n) ==
  IF n > Len(v) \/ n = 0 THEN 0
  ELSE CASE ts[m] = 1  -> IF v[n] = 1 THEN n + 2 ELSE 0
         [] ts[m] = 2  -> IF v[n] = 2 THEN n + 1 ELSE IF v[n] = 3 THEN After(ts, m + 1, v, n + 1) ELSE 0
         [] ts[m] = 4  -> IF v[n] = 4 THEN AfterMany(ts, m + 1, v, n + 2, v[n + 1]) ELSE 0
         [] ts[m] = 5  -> IF v[n] # 5 \/ v[n + 1] # ts[m + 1] THEN 0
                          ELSE LET RECURSIVE go(_, _, _)
                                   go(q, w, k) == IF k = 0 \/ w = 0 THEN w ELSE go(EndOfType(ts, q), After(ts, q, v, w), k - 1)
                               IN go(m + 2, n + 2, ts[m + 1])
         [] ts[m] = 6  -> IF v[n] = 6 THEN n + 1 ELSE 0
         [] ts[m] = 7  -> IF v[n] = 7 THEN AfterAny(v, n) ELSE 0
         [] ts[m] = 8  -> IF v[n] = 8 THEN n + 3 ELSE 0
         [] ts[m] = 9  -> IF v[n] = 9 THEN n + 3 ELSE 0
         [] ts[m] = 10 -> IF v[n] = 10 THEN After(ts, m + 1, v, n + 1) ELSE 0
         [] OTHER -> 0
AfterMany(ts, m, v, n, k) == IF k = 0 \/ n = 0 THEN n ELSE AfterMany(ts, m, v, After(ts, m, v, n), k - 1)
IsA(v, ts) == After(ts, 1, v, 1) = Len(v) + 1

(* ---- The theorems, on an accepted grammar -------------------------------------- *)
Agreement(P, R) == SameReport(P, R) /\ R.v = <<>> /\ R.log = <<>>
Order(s, p, P) ==
  /\ p <= P.p /\ P.p <= Len(s) /\ (~P.ok => P.p = p /\ P.v = <<>>)
  /\ p <= P.er.far /\ P.er.far <= Len(s)
Merge(a, b) == IF a.far > b.far THEN a ELSE IF b.far > a.far THEN b ELSE [far |-> a.far, exp |-> a.exp \cup b.exp]
Frame(g, s, i, p, P) ==
  \A q \in 0..Len(s) :
    LET er == [far |-> q, exp |-> {<<63>>}]
        F == Eval(<<g>>, 1, Input(s), i, p, er, "P")
    IN /\ Same(F, P) /\ F.v = P.v /\ F.log = P.log
       \* the empty report at p says nothing: forget it when it was not used
       /\ F.er = IF P.er.exp = {} THEN er ELSE Merge(er, P.er)
Laws(g, s, i, p) ==
  LET n == Len(g.x)
      plus == N1("plus", i)  star == N1("star", i)  opt == N1("opt", i)
      safe == \A q \in 0..Len(s) : LET r == Run(g, s, i, q, "R") IN r.ok => r.p > q
      h == With(g, <<plus, star, N2("seq", i, n + 2), opt, [k |-> "lit", c |-> <<>>, s |-> <<>>, u |-> TRUE], N2("cho", i, n + 5),
                     N1("and", i), N1("not", i), N1("not", n + 8), N1("opt", n + 3)>>)
      r(j) == Run(h, s, j, p, "R")
  IN /\ safe => SameReport(r(n + 1), r(n + 3)) /\ SameReport(r(n + 2), r(n + 10))
     /\ SameReport(r(n + 4), r(n + 6)) /\ SameReport(r(n + 7), r(n + 9))
\* (a b c) = a (b c) = (a b) c, and so for choices
Associative(g, s, i, p) ==
  LET x == g.x[i]  n == Len(g.x)
      h == With(g, <<N2(x.k, x.c[1], x.c[2]), N2(x.k, x.c[2], x.c[3]), N2(x.k, n + 1, x.c[3]), N2(x.k, x.c[1], n + 2)>>)
      r(j) == Run(h, s, j, p, "R")
  IN x.k \in {"seq", "cho"} /\ Len(x.c) = 3 => SameReport(r(i), r(n + 3)) /\ SameReport(r(i), r(n + 4))
Soundness(w, p, P) ==
  (~w.fail => P.ok) /\ (~w.succ => ~P.ok) /\ (w.cons /\ P.ok => P.p > p) /\ (w.none /\ P.ok => P.p = p)

(* ---- Rewriting ------------------------------------------------------------------- *)
\* The operator node at the top of node i.
RECURSIVE Peel(_, _)
Peel(g, i) ==
  LET x == g.x[i] IN
  CASE x.k = "nt" -> Peel(g, Body(g, x.r))
    [] x.k \in {"act", "asc", "span", "rng"} -> Peel(g, x.c[1])
    [] OTHER -> i
Rewriting(g, s, i, p) ==
  LET x == g.x[i]
      top == TopOp(g, x.c[1])
      t == Peel(g, x.c[1])
      n == Len(g.x)
      \* the operand of the inner operator: for &a / &b, which is &(a / b), the choice (it may stand for a / b)
      e == IF g.x[t].k = "cho" THEN t ELSE g.x[t].c[1]
      h == With(g, <<N1(Rewrite(x.k, top.op), e)>>)
  IN LOp(x) # "none" /\ Chained(x.k, top.op, top.cross) => Same(Run(g, s, i, p, "R"), Run(h, s, n + 1, p, "R"))

\* All the Rust types are equal for Oak: grammars that mix them in a choice are left to rustc.
Sorts(g) == {IF g.x[i].k = "act" /\ g.x[i].box THEN "box" ELSE g.x[i].k : i \in {j \in Used(g) : g.x[j].k \in {"act", "span", "rng"}}}
MixedSorts(g) == Cardinality(Sorts(g)) > 1 /\ \E i \in Used(g) : g.x[i].k = "cho"

Bad(g, ty, wf) ==
  UNION {UNION {UNION {
    LET P == Run(g, s, i, p, "P")
        R == Run(g, s, i, p, "R")
        t(name, ok) == IF ok THEN {} ELSE {<<name, i, p, s>>}
        rs == {r \in 1..NRules(g) : Body(g, r) = i}
    IN t("agreement", Agreement(P, R))
       \cup t("inhabits", P.ok /\ ~MixedSorts(g) => IsA(TupleValue(P.v), TypeTokens(ty, ty[i])))
       \cup t("arity", P.ok => Len(P.v) = Card(ty[i]))
       \cup t("order", Order(s, p, P))
       \cup t("frame", Frame(g, s, i, p, P))
       \cup t("laws", Laws(g, s, i, p) /\ Associative(g, s, i, p))
       \cup t("soundness", \A r \in rs : Soundness(wf.wfa[r], p, P))
       \cup t("rewriting", Rewriting(g, s, i, p))
    : p \in 0..Len(s)} : s \in Words} : i \in Used(g)}

(* ---- The errors of a refused grammar --------------------------------------------- *)
Runs(g, i) == {[p |-> p, o |-> Run(g, s, i, p, "R")] : <<s, p>> \in {<<s, p>> \in Words \X (0..MaxLen) : p <= Len(s)}}
Never(g, i)  == \A a \in Runs(g, i) : ~a.o.ok
Always(g, i) == \A a \in Runs(g, i) : a.o.ok /\ a.o.p = a.p
NoFail(g, i) == \A a \in Runs(g, i) : a.o.ok
Unjustified(g, errs) ==
  {e \in errs :
    LET below == NodesBelow(g, Body(g, e[2])) IN
    CASE e[1] = "never"  -> \A i \in below : ~Never(g, i)
      [] e[1] = "always" -> \A i \in below : ~Always(g, i)
      [] e[1] = "unreach" -> \A i \in {j \in below : g.x[j].k = "cho"} : \A n \in 1..(Len(g.x[i].c) - 1) : ~NoFail(g, g.x[i].c[n])
      [] OTHER -> FALSE}

\* The grammar with the intervals of its classes and, at the nodes of U, the type ().
Ready(g, U) ==
  [g EXCEPT !.x = [i \in 1..Len(g.x) |->
     g.x[i] @@ [u |-> i \in U] @@ (IF g.x[i].k = "cls" THEN [iv |-> Class(g.x[i].s).iv] ELSE <<>>)]]
\* A sufficient condition for the evaluation of a refused grammar to end: no recursion, and
\* what is repeated reads a character.
RECURSIVE Reads(_, _)
Reads(g, i) ==
  LET x == g.x[i] IN
  CASE x.k = "lit" -> x.s # <<>>
    [] x.k \in {"any", "cls"} -> TRUE
    [] x.k = "nt" -> Reads(g, Body(g, x.r))
    [] x.k = "seq" -> \E n \in 1..Len(x.c) : Reads(g, x.c[n])
    [] x.k = "cho" -> \A n \in 1..Len(x.c) : Reads(g, x.c[n])
    [] x.k \in {"star", "opt", "and", "not"} -> FALSE
    [] OTHER -> Reads(g, x.c[1])
Ends(g) ==
  /\ \A r \in 1..NRules(g) : \A i \in NodesBelow(g, Body(g, r)) : g.x[i].k = "nt" => g.x[i].r > r
  /\ \A i \in Used(g) : g.x[i].k \in {"star", "plus"} => Reads(g, g.x[i].c[1])
Verdict(g) ==
  LET wf == WF(g) IN
  IF ~wf.wf
  THEN IF ~Ends(g) THEN {} ELSE Unjustified(Ready(g, {}), wf.errs)
  ELSE LET ty == Typing(g) IN
       IF ty.ok THEN Bad(Ready(g, {i \in 1..Len(g.x) : ty.ty[i].t = "unit"}), ty.ty, wf) ELSE {}

VARIABLE n
Lanes == 64
Init == n \in 1..Lanes
Next == n <= Len(Gs) /\ n' = n + Lanes
Hold == n <= Len(Gs) => LET v == Verdict(Gs[n]) IN
          \/ v = {}
          \/ PrintT("@@" \o ToJson([n |-> n, bad |-> CHOOSE e \in v : TRUE])) /\ FALSE
=============================================================================
