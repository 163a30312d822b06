---------------------------- MODULE ConfRuntime ----------------------------
(* Conformance of the runtime library: the recorded observations of scripts of
   operations against OakRuntime.                                             *)
EXTENDS OakRuntime, Json, IOUtils, SequencesExt, FiniteSetsExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 64
B(x) == IF x THEN 1 ELSE 0
t(name, ok) == IF ok THEN {} ELSE {name}

(* ---- Streams ---------------------------------------------------------------- *)
CursorObs(s, off, p) == <<off[p+1], B(HasNext(s, p)), CurChar(s, p), off[1], off[p+1]>>
StreamObs(s, off, res, regs) ==
  LET c == Compare(regs[1], regs[2]) IN
  <<res>> \o CursorObs(s, off, regs[1]) \o CursorObs(s, off, regs[2])
  \o <<B(c = 0), B(c # 0), B(c < 0), B(c <= 0), B(c > 0), B(c >= 0), c, c, 1>>
RECURSIVE StreamWrong(_, _, _, _, _)
\* the first operation whose observation is not the one of the specification
StreamWrong(r, off, n, regs, i) ==
  IF n > Len(r.ops) THEN {}
  ELSE LET o == StreamOp(r.s, regs, r.ops[n])
           want == StreamObs(r.s, off, o.res, o.regs)
       IN IF n > Len(r.obs) \/ r.obs[n] # want THEN {<<"stream", n, want>>}
          ELSE StreamWrong(r, off, n + 1, o.regs, i)

(* ---- Locations and snippets --------------------------------------------------- *)
\* the starts of the lines registered in a source file: a last line feed starts none
LineStarts(s, off) == IF s = <<>> THEN <<>> ELSE
  SetToSortSeq({off[1]} \cup {off[n + 1] : n \in {k \in 1..(Len(s) - 1) : s[k] = NL}}, <)
PlaceWrong(r, off) ==
  t(<<"lines", 0, <<>>>>, r.kind # "file" \/ r.lines = LineStarts(r.s, OffsetsFrom(r.s, r.base))) \cup
  IF Len(r.obs) # Len(r.s) + 1 THEN {<<"positions", Len(r.obs), <<>>>>}
  ELSE UNION {
    LET o == r.obs[p + 1]
        line == LineOf(r.s, p)
        col == ColumnOf(r.s, off, p)
        hints == [n \in 1..14 |-> IF n = 14 THEN 1000 ELSE n - 1]
    IN t(<<"location", p, LocationText(r.s, off, p)>>, o.loc = LocationText(r.s, off, p))
       \cup t(<<"line", p, <<line, col>>>>, r.kind = "file" \/ (o.line = line /\ o.col = col))
       \cup t(<<"snippet", p, <<>>>>, Len(o.snips) = 14 /\ \A n \in 1..14 : o.snips[n] = SnippetText(r.s, off, p, hints[n]))
    : p \in 0..Len(r.s)}

(* ---- Messages ------------------------------------------------------------------ *)
SetOf(q) == {q[n] : n \in 1..Len(q)}
Dot == <<46>>
FailureText == <<69, 114, 114, 111, 114, 58, 10, 9>>   \* "Error:\n\t"
DataText(head) == head \o <<52, 50>>                    \* the data 42
FullHead == <<70,117,108,108,32,109,97,116,99,104,44,32,103,111,116,32,100,97,116,97,32,96>>
PartialHead == <<80,97,114,116,105,97,108,32,109,97,116,99,104,44,32,103,111,116,32,100,97,116,97,32,96>>
FullTail == <<96, 46>>
PartialTail == <<96,46,32,73,116,32,115,116,111,112,112,101,100,32,98,101,99,97,117,115,101,58,10,9>>
MsgWrong(r, off) ==
  LET far == r.ops[1][2]
      items == {r.ops[n][4] : n \in 2..Len(r.ops)}
      isMsg(m) == IsMessage(m, r.s, off, far, items)
      after(h, m) == SuffixFrom(m, Len(h))
      ph == DataText(PartialHead) \o PartialTail
  IN t(<<"items", far, <<>>>>, ListsItems(r.obs.items \o Dot, items))
     \cup t(<<"report", far, <<>>>>, isMsg(r.obs.report))
     \cup t(<<"failure", far, <<>>>>, IsPrefixOf(FailureText, r.obs.failure) /\ isMsg(after(FailureText, r.obs.failure)))
     \cup t(<<"partial", far, <<>>>>, IsPrefixOf(ph, r.obs.partial) /\ isMsg(after(ph, r.obs.partial)))
     \cup t(<<"success", far, <<>>>>, r.obs.success = DataText(FullHead) \o FullTail)

(* ---- The parse state ------------------------------------------------------------ *)
SameState(o, st, off) ==
  /\ o.cur = off[st.cur + 1] /\ o.far = off[st.far + 1] /\ SetOf(o.exp) = SetOf(st.exp)
  /\ o.failed = st.failed /\ o.is = <<st.failed, ~st.failed>> /\ o.data = st.data /\ o.ty = st.ty
RECURSIVE StateWrong(_, _, _, _)
StateWrong(r, off, n, st) ==
  IF n > Len(r.ops) THEN {}
  ELSE IF n > Len(r.obs) THEN {<<"stops", n, <<>>>>}
  ELSE LET o == r.obs[n]
           x == StateOp(r.s, st, r.ops[n])
           off0 == Offsets(r.s)
       IN IF ~(o.ok = x.ok /\ o.res = x.res) THEN {<<"outcome", n, <<>>>>}
          ELSE IF ~(IF x.ok /\ r.ops[n][1] = 10 /\ x.res # 1 THEN IsMessage(o.msg, r.s, off0, st.far, SetOf(st.exp)) ELSE o.msg = <<>>)
               THEN {<<"report", n, <<>>>>}
          ELSE IF x.st.dead THEN IF n = Len(r.ops) THEN {} ELSE {<<"script", n, <<>>>>}
          ELSE IF "gone" \in DOMAIN o \/ ~SameState(o, x.st, off) THEN {<<"state", n, <<>>>>}
          ELSE StateWrong(r, off, n + 1, x.st)
StatesWrong(r, off) ==
  LET st == NewState(r.ops[1][2]) IN
  IF Len(r.obs) = 0 \/ ~SameState(r.obs[1], st, off) THEN {<<"state", 1, <<>>>>} ELSE StateWrong(r, off, 2, st)

Wrong(r) ==
  LET off == OffsetsFrom(r.s, r.base) IN
  CASE r.what = "stream" -> StreamWrong(r, off, 1, <<0, 0>>, 0)
    [] r.what = "place" -> PlaceWrong(r, Offsets(r.s))
    [] r.what = "msg" -> MsgWrong(r, Offsets(r.s))
    [] r.what = "state" -> StatesWrong(r, off)

VARIABLE n
Init == n \in 1..Lanes
Next == n <= Len(Trace) /\ n' = n + Lanes
Check == n <= Len(Trace) => LET w == Wrong(Trace[n]) IN w # {} => PrintT("@@" \o ToJson([n |-> n, wrong |-> w]))
=============================================================================
