----------------------------- MODULE OakRuntime -----------------------------
(* The runtime library: streams as cursors over a text, locations and snippets,
   and the protocol of the parse state.  Positions are character offsets; the
   code counts in bytes, Off converts.                                        *)
EXTENDS OakResult

(* ---- Streams: a cursor over a text ---------------------------------------- *)
Ahead(s, p) == SuffixFrom(s, p)
HasNext(s, p) == p < Len(s)
CurChar(s, p) == IF HasNext(s, p) THEN s[p + 1] ELSE -1
\* a read gives a character and moves, or -1 and stays
ReadOf(s, p) == [res |-> CurChar(s, p), p |-> IF HasNext(s, p) THEN p + 1 ELSE p]
\* consuming a prefix moves by this prefix or stays
EatOf(s, p, w) == IF IsPrefixOf(w, Ahead(s, p)) THEN [res |-> 1, p |-> p + Len(w)] ELSE [res |-> 0, p |-> p]
Compare(p, q) == IF p < q THEN -1 ELSE IF p = q THEN 0 ELSE 1

\* operations on two registers that hold streams:  <<code, a, b, word>>
StreamOp(s, regs, op) ==
  CASE op[1] = 0 -> LET r == ReadOf(s, regs[op[2]]) IN [res |-> r.res, regs |-> [regs EXCEPT ![op[2]] = r.p]]
    [] op[1] = 1 -> LET r == EatOf(s, regs[op[2]], op[4]) IN [res |-> r.res, regs |-> [regs EXCEPT ![op[2]] = r.p]]
    [] op[1] = 2 -> [res |-> 0, regs |-> [regs EXCEPT ![op[3]] = regs[op[2]]]]

(* ---- The parse state -------------------------------------------------------
   [cur, far, exp, failed, data, marks, ty, dead]; ty is 0 when the type of
   the value is (), 1 otherwise; exp is the sequence of the items
   recorded at far; data is <<>> or <<value>>; dead after a rejected operation
   that takes the state.  Operations <<code, a, b, word>>:
     0 read a character            1 consume the prefix `word`
     2 error, item `word`          3 mark
     4 restore mark a              5 restore mark a from a failure
     6 success with value b        7 failure, type a
     8 discard the data            9 extract the data
    10 into_result                11 unwrap_data                              *)
NewState(p) == [cur |-> p, far |-> p, exp |-> <<>>, failed |-> FALSE, data |-> <<>>, marks |-> <<>>, ty |-> 0, dead |-> FALSE]

Rejected(st) == [ok |-> FALSE, res |-> 0, st |-> [st EXCEPT !.dead = TRUE]]
Done(st, r) == [ok |-> TRUE, res |-> r, st |-> st]

Restored(st, m) == [st EXCEPT !.cur = m, !.failed = FALSE, !.data = <<>>, !.ty = 0]
ErrorAt(st, item) ==
  LET f == [st EXCEPT !.failed = TRUE, !.data = <<>>] IN
  IF st.cur > st.far THEN [f EXCEPT !.far = st.cur, !.exp = <<item>>]
  ELSE IF st.cur = st.far THEN [f EXCEPT !.exp = Append(st.exp, item)]
  ELSE f

\* kind of the result: 1 full match, 2 partial match, 3 failure
ResultOf(s, st) == IF st.data # <<>> THEN (IF HasNext(s, st.cur) THEN 2 ELSE 1) ELSE 3

StateOp(s, st, op) ==
  CASE op[1] = 0 -> LET r == ReadOf(s, st.cur) IN Done([st EXCEPT !.cur = r.p], r.res)
    [] op[1] = 1 -> LET r == EatOf(s, st.cur, op[4]) IN Done([st EXCEPT !.cur = r.p], r.res)
    [] op[1] = 2 -> Done(ErrorAt(st, op[4]), 0)
    [] op[1] = 3 -> IF st.failed THEN [ok |-> FALSE, res |-> 0, st |-> st]  \* the state is only looked at
                    ELSE Done([st EXCEPT !.marks = Append(st.marks, st.cur)], 0)
    [] op[1] = 4 -> IF st.data # <<>> THEN Rejected(st) ELSE Done(Restored(st, st.marks[op[2]]), 0)
    [] op[1] = 5 -> IF st.data # <<>> \/ ~st.failed THEN Rejected(st) ELSE Done(Restored(st, st.marks[op[2]]), 0)
    [] op[1] = 6 -> Done([st EXCEPT !.failed = FALSE, !.data = <<op[3]>>, !.ty = IF op[3] = 0 THEN 0 ELSE 1], 0)
    [] op[1] = 7 -> Done([st EXCEPT !.failed = TRUE, !.data = <<>>, !.ty = op[2]], 0)
    [] op[1] = 8 -> Done([st EXCEPT !.data = <<>>], 0)  \* only for ()
    [] op[1] = 9 -> IF st.failed \/ st.data = <<>> THEN Rejected(st) ELSE Done([st EXCEPT !.data = <<>>, !.ty = 0], st.data[1])
    [] op[1] = 10 -> IF st.data = <<>> /\ ~st.failed THEN Rejected(st)
                     ELSE Done([st EXCEPT !.dead = TRUE], ResultOf(s, st))
    [] op[1] = 11 -> IF st.data = <<>> THEN Rejected(st) ELSE Done([st EXCEPT !.dead = TRUE], st.data[1])
=============================================================================
