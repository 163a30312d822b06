-------------------------------- MODULE Prep --------------------------------
(* Verdicts of the specification on the grammars of a case file: are the classes
   valid, is the grammar well-formed, well-typed; the types of its rules, the
   number of arguments of its actions, the warnings.  One line of output per
   grammar, read by the tools that write the Rust code of the grammars.        *)
EXTENDS OakWF, OakTyping, OakLint, Json, IOUtils

Grammars == JsonDeserialize(IOEnv.CASES)
Lanes == 48

ClassesOk(g) == \A i \in 1..Len(g.x) : g.x[i].k = "cls" => Class(g.x[i].s).ok

AsSeq(S) == LET RECURSIVE go(_)
                go(s) == IF s = {} THEN <<>> ELSE LET e == CHOOSE e \in s : TRUE IN <<e>> \o go(s \ {e})
            IN go(S)

Verdict(n) ==
  LET g   == Grammars[n]
      cok == ClassesOk(g)
      wf  == WF(g)
      ty  == Typing(g)
      acts == {i \in 1..Len(g.x) : g.x[i].k = "act"}
  IN IF ~cok THEN [n |-> n, cls |-> FALSE]
     ELSE IF ~wf.wf THEN [n |-> n, cls |-> TRUE, wf |-> FALSE, errs |-> AsSeq(wf.errs)]
     ELSE [n |-> n, cls |-> TRUE, wf |-> TRUE, lint |-> AsSeq(Lint(g)), warn |-> AsSeq(ty.warn),
           ty |-> ty.ok, errs |-> AsSeq(ty.errs),
           types |-> IF ty.ok THEN [r \in 1..NRules(g) |-> TypeTokens(ty.ty, ty.ty[Body(g, r)])] ELSE <<>>,
           incoherent |-> IF ty.ok THEN AsSeq(UNION {Incoherent(g, ty.ty, Body(g, r)) : r \in 1..NRules(g)}) ELSE <<>>,
           mixed |-> IF ty.ok THEN AsSeq(UNION {Mixed(g, ty.ty, Body(g, r)) : r \in 1..NRules(g)}) ELSE <<>>,
           iv    |-> [i \in 1..Len(g.x) |-> IF g.x[i].k = "cls" THEN Class(g.x[i].s).iv ELSE <<>>],
           unit  |-> IF ty.ok THEN [i \in 1..Len(g.x) |-> ty.ty[i].t = "unit"] ELSE <<>>,
           card  |-> IF ty.ok THEN [i \in 1..Len(g.x) |-> Card(ty.ty[i])] ELSE <<>>]

VARIABLE n
Init == n \in 1..Lanes
Next == n <= Len(Grammars) /\ n' = n + Lanes
Emit == n <= Len(Grammars) => PrintT("@@" \o ToJson(Verdict(n)))
=============================================================================
