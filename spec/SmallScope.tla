------------------------------ MODULE SmallScope ------------------------------
(* All the grammars of a small scope, enumerated as trees and flattened to node
   tables.  SCOPE selects the operators and the depth; the grammars are written to
   the file OUT.  They feed the model-checked theorems (Theorems, PegMachine) and
   are replayed in the code.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, SequencesExt, Json, IOUtils

A == <<97>>
B == <<98>>
AB == <<97, 98>>
Lit(s)  == [k |-> "lit", s |-> s]
Cls(s)  == [k |-> "cls", s |-> s]
Dot     == [k |-> "any"]
Nt(r)   == [k |-> "nt", r |-> r]
Un(k, t) == [k |-> k, sub |-> <<t>>]
Bin(k, t, u) == [k |-> k, sub |-> <<t, u>>]
Act(t)  == [k |-> "act", sub |-> <<t>>, box |-> FALSE]
Asc(t)  == [k |-> "asc", sub |-> <<t>>, t |-> "unit"]

(* ---- Flattening: a tree becomes a node table, children before parents ------ *)
RECURSIVE Flat(_, _)
RECURSIVE FlatAll(_, _, _)
\* [x |-> table, fns |-> number of actions]; the root is the last node
Flat(t, st) ==
  LET subs == IF "sub" \in DOMAIN t THEN t.sub ELSE <<>>
      st1  == FlatAll(subs, st, <<>>)
      node == CASE t.k = "lit" -> [k |-> "lit", c |-> <<>>, s |-> t.s]
                [] t.k = "cls" -> [k |-> "cls", c |-> <<>>, s |-> t.s]
                [] t.k = "any" -> [k |-> "any", c |-> <<>>]
                [] t.k = "nt"  -> [k |-> "nt", c |-> <<>>, r |-> t.r]
                [] t.k = "act" -> [k |-> "act", c |-> st1.roots, fn |-> st1.fns + 1, box |-> t.box]
                [] t.k = "asc" -> [k |-> "asc", c |-> st1.roots, t |-> t.t]
                [] OTHER -> [k |-> t.k, c |-> st1.roots]
  IN [x |-> Append(st1.x, node), fns |-> st1.fns + (IF t.k = "act" THEN 1 ELSE 0)]
FlatAll(ts, st, roots) ==
  IF ts = <<>> THEN [x |-> st.x, fns |-> st.fns, roots |-> roots]
  ELSE LET s == Flat(Head(ts), st) IN FlatAll(Tail(ts), s, Append(roots, Len(s.x)))

RuleName(r) == "r" \o ToString(r)
RECURSIVE FlatRules(_, _, _)
FlatRules(ts, st, rules) ==
  IF ts = <<>> THEN [rules |-> rules, x |-> st.x, fns |-> [n \in 1..st.fns |-> [kind |-> "fn", ret |-> "Node"]]]
  ELSE LET s == Flat(Head(ts), st) IN FlatRules(Tail(ts), s, Append(rules, [name |-> RuleName(Len(rules) + 1), e |-> Len(s.x)]))
Grammar(ts) == FlatRules(ts, [x |-> <<>>, fns |-> 0], <<>>)

(* ---- Scopes ----------------------------------------------------------------- *)
Rec == {"star", "plus", "opt", "not", "and"}
Val == {"star", "opt", "act", "asc", "span", "not"}
UnOf(ks, T) == {IF k = "act" THEN Act(t) ELSE IF k = "asc" THEN Asc(t) ELSE Un(k, t) : k \in ks, t \in T}
BinOf(T, U) == {Bin(k, t, u) : k \in {"seq", "cho"}, t \in T, u \in U}
Grow(ks, L, T) == L \cup UnOf(ks, T) \cup BinOf(T, L) \cup BinOf(L, T)

\* one rule, depth 2, recognition operators
One == LET L == {Lit(A), Dot, Nt(1)}
           T == L \cup UnOf(Rec, L) \cup BinOf(L, L)
       IN {<<Asc(t)>> : t \in Grow(Rec, L, T)}
\* one rule, depth 2, two literals and the empty one
OneLit == LET L == {Lit(A), Lit(AB), Lit(<<>>)}
              T == L \cup UnOf(Rec, L) \cup BinOf(L, L)
          IN {<<t>> : t \in Grow(Rec, L, T)}
\* two rules of depth 1
Two == LET L == {Lit(A), Lit(<<>>), Nt(1), Nt(2)}
           T == L \cup UnOf(Rec, L) \cup BinOf(L, L)
       IN {<<t, u>> : t \in T, u \in T}
\* one rule with values: actions, annotations, spans
Values == LET L == {Lit(A), Dot, Cls(AB)}
              T == L \cup UnOf(Val, L) \cup BinOf(L, L)
          IN {<<t>> : t \in Grow(Val, L, T)}
\* two rules with values
TwoValues == LET L == {Lit(A), Dot, Nt(1), Nt(2)}
                 T == L \cup UnOf(Val, L) \cup BinOf(L, L)
             IN {<<t, u>> : t \in T, u \in T}
\* chains of operators, through a rule or not (warnings)
Chains == LET L == {Lit(A), Nt(2)}
              U == UnOf(Rec, L)
              C == {Bin("cho", t, u) : t \in U, u \in U}
          IN {<<t, u>> : t \in UnOf(Rec, U \cup C \cup {Nt(2)}), u \in {Lit(B)} \cup UnOf(Rec, {Lit(B)})}
\* three-branch choices and three-element sequences
Wide == LET L == {Lit(A), Lit(AB), Lit(B), Un("opt", Lit(A)), Un("star", Lit(B)), Un("not", Lit(A))}
        IN {<< [k |-> k, sub |-> <<s, t, u>>] >> : k \in {"seq", "cho"}, s \in L, t \in L, u \in L}

\* choices between two typed expressions, for every pair of small types
Typed == LET L == {Lit(A), Dot, Act(Lit(A)), Asc(Dot)}
             P == {Bin("seq", t, u) : t \in L, u \in L}
             Q == {Dot, Act(Lit(A))}
         IN L \cup UnOf({"opt", "plus"}, L) \cup P \cup UnOf({"opt", "plus"}, {Bin("seq", Dot, Dot), Bin("seq", Dot, Act(Lit(A)))})
            \cup {Un("plus", Un("opt", Bin("seq", Lit(A), Dot))), Un("span", Lit(A)), Un("span", Dot), Un("rng", Asc(Dot)), Bin("seq", Dot, Un("opt", Dot))}
            \cup {[k |-> "seq", sub |-> <<s, t, u>>] : s \in Q, t \in Q, u \in Q}
Branches == {<<Bin("cho", Bin("seq", Lit(A), t), Bin("seq", Lit(B), u))>> : t \in Typed, u \in Typed}
\* three rules that call each other, with and without values
Rec3 == LET N == {Nt(1), Nt(2), Nt(3)}
            C == {Bin("seq", Lit(A), n) : n \in N}
            D == {Bin("seq", Lit(B), n) : n \in N}
            T == {Lit(A), Dot} \cup C \cup {Bin("cho", c, v) : c \in C, v \in {Dot, Lit(B), Act(Lit(B))}} \cup {Bin("cho", c, d) : c \in C, d \in D}
                 \cup UnOf({"opt"}, C) \cup {Bin("cho", Bin("seq", Dot, c), Bin("seq", Dot, Dot)) : c \in C}
        IN {<<s, t, u>> : s \in T, t \in T, u \in T}

Scope == CASE IOEnv.SCOPE = "one" -> One [] IOEnv.SCOPE = "onelit" -> OneLit [] IOEnv.SCOPE = "two" -> Two
           [] IOEnv.SCOPE = "values" -> Values [] IOEnv.SCOPE = "twovalues" -> TwoValues
           [] IOEnv.SCOPE = "chains" -> Chains [] IOEnv.SCOPE = "wide" -> Wide
           [] IOEnv.SCOPE = "branches" -> Branches [] IOEnv.SCOPE = "rec3" -> Rec3

VARIABLE done
Init == done = FALSE
Next == /\ ~done
        /\ LET all == SetToSeq(Scope)
           IN JsonSerialize(IOEnv.OUT, [n \in 1..Len(all) |-> Grammar(all[n])])
        /\ done' = TRUE
=============================================================================
