------------------------------ MODULE PegMachine ------------------------------
(* The generated code as an abstract machine: the parse state (current position,
   farthest failure, expectations, failure flag), the control point and the stack
   of the continuations, one action per elementary step of the generated code.

   The machine is checked against the reference semantics OakSem (its final state
   is the outcome of the big-step evaluation) and against the properties of the
   parse state that must hold at each step, on all the grammars of a small scope
   and all the inputs of a bounded length.                                       *)
EXTENDS OakSem, Json, IOUtils

Gs == JsonDeserialize(IOEnv.CASES)         \* with types and intervals
MaxLen == atoi(IOEnv.MAXLEN)
Alphabet == {97, 98}
Inputs == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}

VARIABLES
  gi,      \* the grammar
  inp,     \* the input
  mode0,   \* "P": parser, "R": recognizer
  ctl,     \* control: [at |-> node, mode] to evaluate, or [at |-> 0] to return
  cur,     \* current position
  failed,  \* failure flag
  far, exp, \* error report
  data,    \* values of the expression that returns
  log,     \* actions called
  stack    \* continuations

vars == <<gi, inp, mode0, ctl, cur, failed, far, exp, data, log, stack>>
fixed == <<gi, inp, mode0>>
report == <<far, exp>>

g == Gs[gi]
X(i) == g.x[i]
s == inp

Return == [at |-> 0, mode |-> "R"]
Visit(i, m) == [at |-> i, mode |-> m]

\* the mode in which node i is compiled below mode m
ModeOf(i, m) == IF m = "P" /\ X(i).u THEN "R" ELSE m

Init ==
  /\ gi \in 1..Len(Gs)
  /\ inp \in Inputs
  /\ mode0 \in {"P", "R"}
  /\ ctl = Visit(Body(Gs[gi], 1), mode0)
  /\ cur = 0 /\ failed = FALSE /\ far = 0 /\ exp = {} /\ data = <<>> /\ log = <<>> /\ stack = <<>>

Evaluating(k) == ctl.at # 0 /\ X(ctl.at).k = k
Node == X(ctl.at)
M == ModeOf(ctl.at, ctl.mode)
Push(f) == stack' = Append(stack, f)
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Replace(f) == stack' = Append(Pop, f)
Frame(k) == ctl.at = 0 /\ stack # <<>> /\ Top.k = k

Succeed(p, v) == /\ ctl' = Return /\ cur' = p /\ failed' = FALSE /\ data' = v
                 /\ UNCHANGED <<far, exp>>
Error(item) ==
  /\ ctl' = Return /\ failed' = TRUE /\ data' = <<>> /\ UNCHANGED cur
  /\ far' = (IF cur > far THEN cur ELSE far)
  /\ exp' = (IF cur > far THEN {item} ELSE IF cur = far THEN exp \cup {item} ELSE exp)

(* ---- Terminals ----------------------------------------------------------- *)
Literal ==
  /\ Evaluating("lit")
  /\ IF IsPrefixAt(s, cur, Node.s) THEN Succeed(cur + Len(Node.s), <<>>) ELSE Error(Node.s)
  /\ UNCHANGED <<fixed, log, stack>>
AnyCharacter ==
  /\ Evaluating("any")
  /\ IF cur < Len(s) THEN Succeed(cur + 1, IF M = "P" THEN << <<1, s[cur + 1]>> >> ELSE <<>>) ELSE Error(AnyText)
  /\ UNCHANGED <<fixed, log, stack>>
CharacterClass ==
  /\ Evaluating("cls")
  /\ IF cur < Len(s) /\ InClass(Node.iv, s[cur + 1])
     THEN Succeed(cur + 1, IF M = "P" THEN << <<1, s[cur + 1]>> >> ELSE <<>>)
     ELSE Error(ClassText(Node.iv))
  /\ UNCHANGED <<fixed, log, stack>>

(* ---- Entering an expression ------------------------------------------------ *)
Enter(k, i, m, frame) ==
  /\ Evaluating(k) /\ ctl' = Visit(i, m) /\ Push(frame)
  /\ failed' = FALSE /\ data' = <<>>
  /\ UNCHANGED <<fixed, cur, report, log>>

Call == Evaluating("nt") /\ Enter("nt", Body(g, Node.r), M, [k |-> "call"])
EnterSequence == Evaluating("seq") /\ Enter("seq", Node.c[1], M, [k |-> "seq", c |-> Node.c, n |-> 1, mode |-> M, vs |-> <<>>])
EnterChoice == Evaluating("cho") /\ Enter("cho", Node.c[1], M, [k |-> "cho", c |-> Node.c, n |-> 1, mode |-> M, mark |-> cur])
EnterRepetition == \E k \in {"star", "plus"} :
  Evaluating(k) /\ Enter(k, Node.c[1], M, [k |-> "loop", c |-> Node.c, n |-> 0, mode |-> M, mark |-> cur, vs |-> <<>>,
                                           min |-> IF k = "plus" THEN 1 ELSE 0])
EnterOption == Evaluating("opt") /\ Enter("opt", Node.c[1], M, [k |-> "opt", mode |-> M, mark |-> cur])
EnterPredicate == \E k \in {"not", "and"} :
  Evaluating(k) /\ Enter(k, Node.c[1], "R", [k |-> "pred", neg |-> k = "not", mark |-> cur])
EnterAction == Evaluating("act") /\ Enter("act", Node.c[1], M, [k |-> "act", node |-> ctl.at, mode |-> M])
EnterAscription == Evaluating("asc") /\ Enter("asc", Node.c[1], M, [k |-> "call"])
EnterSpan == Evaluating("span") /\ Enter("span", Node.c[1], M, [k |-> "span", mode |-> M, mark |-> cur])
EnterRange == Evaluating("rng") /\ Enter("rng", Node.c[1], "R", [k |-> "rng", mode |-> M, mark |-> cur])

(* ---- Returning to the enclosing expression --------------------------------- *)
Back(ok, p, v) == /\ ctl' = Return /\ failed' = ~ok /\ cur' = p /\ data' = v /\ stack' = Pop

CallReturn ==
  /\ Frame("call") /\ Back(~failed, cur, data)
  /\ UNCHANGED <<fixed, report, log>>
SequenceNext ==
  /\ Frame("seq") /\ ~failed /\ Top.n < Len(Top.c)
  /\ ctl' = Visit(Top.c[Top.n + 1], Top.mode)
  /\ Replace([Top EXCEPT !.n = @ + 1, !.vs = @ \o data])
  /\ data' = <<>> /\ UNCHANGED <<fixed, cur, failed, report, log>>
SequenceEnd ==
  /\ Frame("seq") /\ ~failed /\ Top.n = Len(Top.c) /\ Back(TRUE, cur, Top.vs \o data)
  /\ UNCHANGED <<fixed, report, log>>
SequenceFail ==
  /\ Frame("seq") /\ failed /\ Back(FALSE, cur, <<>>)
  /\ UNCHANGED <<fixed, report, log>>
ChoiceCommit ==
  /\ Frame("cho") /\ ~failed /\ Back(TRUE, cur, data)
  /\ UNCHANGED <<fixed, report, log>>
ChoiceRetry ==      \* restore the mark, try the next branch
  /\ Frame("cho") /\ failed /\ Top.n < Len(Top.c)
  /\ ctl' = Visit(Top.c[Top.n + 1], Top.mode) /\ cur' = Top.mark /\ failed' = FALSE
  /\ Replace([Top EXCEPT !.n = @ + 1]) /\ data' = <<>>
  /\ UNCHANGED <<fixed, report, log>>
ChoiceFail ==
  /\ Frame("cho") /\ failed /\ Top.n = Len(Top.c) /\ Back(FALSE, cur, <<>>)
  /\ UNCHANGED <<fixed, report, log>>
LoopAgain ==
  /\ Frame("loop") /\ ~failed
  /\ ctl' = Visit(Top.c[1], Top.mode)
  /\ Replace([Top EXCEPT !.n = @ + 1, !.mark = cur, !.vs = IF Top.mode = "P" THEN @ \o TupleValue(data) ELSE @])
  /\ data' = <<>> /\ UNCHANGED <<fixed, cur, failed, report, log>>
LoopStop ==         \* the iteration that failed is undone
  /\ Frame("loop") /\ failed /\ Top.n >= Top.min
  /\ Back(TRUE, Top.mark, IF Top.mode = "P" THEN << <<4, Top.n>> \o Top.vs >> ELSE <<>>)
  /\ UNCHANGED <<fixed, report, log>>
LoopFail ==
  /\ Frame("loop") /\ failed /\ Top.n < Top.min /\ Back(FALSE, cur, <<>>)
  /\ UNCHANGED <<fixed, report, log>>
OptionSome ==
  /\ Frame("opt") /\ ~failed /\ Back(TRUE, cur, IF Top.mode = "P" THEN << <<3>> \o TupleValue(data) >> ELSE <<>>)
  /\ UNCHANGED <<fixed, report, log>>
OptionNone ==
  /\ Frame("opt") /\ failed /\ Back(TRUE, Top.mark, IF Top.mode = "P" THEN << <<2>> >> ELSE <<>>)
  /\ UNCHANGED <<fixed, report, log>>
PredicateEnd ==     \* the position is always restored
  /\ Frame("pred") /\ Back(failed = Top.neg, Top.mark, <<>>)
  /\ UNCHANGED <<fixed, report, log>>
ActionCall ==
  /\ Frame("act") /\ ~failed
  /\ IF Top.mode = "P"
     THEN LET n == X(Top.node)
              call == <<7, n.fn, Len(data)>> \o FlattenSeq(data)
          IN /\ Back(TRUE, cur, << IF n.box THEN <<10>> \o call ELSE call >>) /\ log' = Append(log, call)
     ELSE Back(TRUE, cur, <<>>) /\ UNCHANGED log
  /\ UNCHANGED <<fixed, report>>
ActionFail ==
  /\ Frame("act") /\ failed /\ Back(FALSE, cur, <<>>)
  /\ UNCHANGED <<fixed, report, log>>
SpanEnd ==
  /\ (Frame("span") \/ Frame("rng"))
  /\ IF failed THEN Back(FALSE, cur, <<>>)
     ELSE Back(TRUE, cur, IF Top.mode # "P" THEN <<>>
                          ELSE IF Top.k = "rng" THEN << <<9, Top.mark, cur>> >> ELSE << <<8, Top.mark, cur>> >> \o data)
  /\ UNCHANGED <<fixed, report, log>>

Next == \/ Literal \/ AnyCharacter \/ CharacterClass
        \/ Call \/ EnterSequence \/ EnterChoice \/ EnterRepetition \/ EnterOption \/ EnterPredicate
        \/ EnterAction \/ EnterAscription \/ EnterSpan \/ EnterRange
        \/ CallReturn \/ SequenceNext \/ SequenceEnd \/ SequenceFail \/ ChoiceCommit \/ ChoiceRetry \/ ChoiceFail
        \/ LoopAgain \/ LoopStop \/ LoopFail \/ OptionSome \/ OptionNone \/ PredicateEnd
        \/ ActionCall \/ ActionFail \/ SpanEnd

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- Properties --------------------------------------------------------------- *)
Done == ctl.at = 0 /\ stack = <<>>

PositionsOk == 0 <= cur /\ cur <= Len(s) /\ 0 <= far /\ far <= Len(s)
\* Nothing is expected at a position that was not reached.
ReportOk == far > 0 => exp # {}
MarksOrdered ==     \* a mark is never after the current position, inner marks are after outer ones
  /\ \A n \in 1..Len(stack) : "mark" \in DOMAIN stack[n] => stack[n].mark <= cur
  /\ \A n \in 1..Len(stack) : \A m \in n..Len(stack) :
       "mark" \in DOMAIN stack[n] /\ "mark" \in DOMAIN stack[m] => stack[n].mark <= stack[m].mark
RecognizerIsSilent == mode0 = "R" => log = <<>> /\ data = <<>>
NoDataOnFailure == failed => data = <<>>
\* A predicate never calls actions: no action frame in parser mode above a predicate.
PredicatesAreSilent ==
  \A n \in 1..Len(stack) : stack[n].k \in {"pred", "rng"} =>
    \A m \in (n + 1)..Len(stack) : "mode" \in DOMAIN stack[m] => stack[m].mode = "R"
\* Loops of well-formed grammars progress at each iteration.
LoopsProgress == Frame("loop") /\ ~failed => cur > Top.mark
\* The stack is bounded: no left recursion.
Bounded == Len(stack) <= (Len(s) + 1) * (Len(g.x) + 1) * 2
\* The machine ends where the reference semantics says.
Outcome == RunRule(Gs, gi, 1, [s |-> s, off |-> [n \in 1..(Len(s) + 1) |-> n - 1]], 0, mode0)
EndsRight ==
  Done => LET o == Outcome IN
          /\ o.ok = ~failed /\ (o.ok => o.p = cur) /\ o.far = far /\ o.exp = exp /\ o.log = log
          /\ o.ok => o.v = TupleValue(data)
Stuck == ~Done => ENABLED Next

\* Monotonic: the farthest position, the log, the expectations of a position.
Monotonic == [][/\ far' >= far
                /\ far' = far => exp \subseteq exp'
                \* a terminal that fails is reported, unless something failed farther
                /\ far' > far => far' = cur
                /\ Len(log') >= Len(log) /\ SubSeq(log', 1, Len(log)) = log]_vars
Terminates == <>Done
=============================================================================
