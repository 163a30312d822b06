----------------------------- MODULE StateModel -----------------------------
(* All the histories of a parse state over a small text: every operation from
   every reachable state.  The path to each distinct state is exported; the paths,
   followed by every operation, are replayed in the code.                      *)
EXTENDS OakRuntime, Json, IOUtils

Text == <<97, 233>>
Items == {<<97>>, <<98>>}
MaxExp == 2
MaxMarks == 2

VARIABLES st, start, path, errs   \* errs: history of <<position, item>> of the errors
vars == <<st, start, path, errs>>
View == <<st, start, {e[1] : e \in {errs[n] : n \in 1..Len(errs)}}>>

Words == {<<97>>, <<233>>, <<97, 233>>, <<98>>, <<>>}
None == <<>>
OpsOf(x) ==
  {<<0, 0, 0, None>>, <<3, 0, 0, None>>, <<7, 0, 0, None>>, <<7, 1, 0, None>>, <<9, 0, 0, None>>, <<10, 0, 0, None>>, <<11, 0, 0, None>>}
  \cup {<<1, 0, 0, w>> : w \in Words} \cup {<<2, 0, 0, i>> : i \in Items}
  \cup {<<c, m, 0, None>> : c \in {4, 5}, m \in 1..Len(x.marks)} \cup {<<6, 0, v, None>> : v \in {0, 7}}
  \cup (IF x.ty = 0 THEN {<<8, 0, 0, None>>} ELSE {})

Init == \E p \in 0..1 : start = p /\ st = NewState(p) /\ path = <<>> /\ errs = <<>>
Next == /\ ~st.dead
        /\ \E op \in OpsOf(st) :
             LET r == StateOp(Text, st, op) IN
             /\ st' = r.st
             /\ path' = Append(path, op)
             /\ errs' = IF op[1] = 2 THEN Append(errs, <<st.cur, op[4]>>) ELSE errs
             /\ start' = start
Bound == Len(st.exp) <= MaxExp /\ Len(st.marks) <= MaxMarks

(* ---- The protocol ----------------------------------------------------------- *)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Positions == {start} \cup {errs[n][1] : n \in 1..Len(errs)}
\* the report is the farthest error, with the items recorded there, in any history
FarthestKept == st.far = MaxOf(Positions)
RECURSIVE ItemsAt(_, _)
ItemsAt(es, p) == IF es = <<>> THEN <<>> ELSE (IF Head(es)[1] = p THEN <<Head(es)[2]>> ELSE <<>>) \o ItemsAt(Tail(es), p)
ItemsKept == st.exp = ItemsAt(errs, st.far)
DataOnlyOnSuccess == st.data # <<>> => ~st.failed
InText == st.cur \in 0..Len(Text) /\ \A m \in 1..Len(st.marks) : st.marks[m] \in 0..Len(Text)
\* a failed state never gives a match, a state with data always does
Classified == (~st.dead /\ (st.failed \/ st.data # <<>>)) =>
  LET k == StateOp(Text, st, <<10, 0, 0, None>>).res IN
  k = (IF st.failed THEN 3 ELSE IF st.cur = Len(Text) THEN 1 ELSE 2)
Export == (~st.dead) => PrintT("@@" \o ToJson([start |-> start, path |-> path, ops |-> OpsOf(st)]))
\* nothing but an error moves the report; only reads and restorations move the position
ReportMoves == [][(st.far # st'.far \/ st.exp # st'.exp) => Len(errs') > Len(errs)]_vars
=============================================================================
