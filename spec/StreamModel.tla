---------------------------- MODULE StreamModel ----------------------------
(* All the histories of two streams over each text of a small scope: reads,
   prefixes consumed and clones.  The history of each stream is kept as the text
   it has gone through; the path to each distinct state is exported and replayed,
   followed by every operation, in the code.                                   *)
EXTENDS OakRuntime, Json, IOUtils

Alphabet == {97, 233, 10}
MaxLen == 3
RECURSIVE WordsOf(_)
WordsOf(n) == IF n = 0 THEN {<<>>} ELSE LET W == WordsOf(n - 1) IN W \cup {Append(w, c) : w \in W, c \in Alphabet}
Texts == WordsOf(MaxLen)
Prefixes == WordsOf(2) \cup {<<120>>, <<97, 120>>, <<195>>}

VARIABLES s, regs, gone, path
vars == <<s, regs, gone, path>>
View == <<s, regs>>

None == <<>>
Ops == {<<0, r, 0, None>> : r \in 1..2} \cup {<<2, 1, 2, None>>, <<2, 2, 1, None>>}
       \cup {<<1, r, 0, w>> : r \in 1..2, w \in Prefixes \cup {s, Append(s, 97)}}

Init == s \in Texts /\ regs = <<0, 0>> /\ gone = <<None, None>> /\ path = <<>>
Next == \E op \in Ops :
  LET r == StreamOp(s, regs, op) IN
  /\ regs' = r.regs
  /\ path' = Append(path, op)
  /\ gone' = CASE op[1] = 0 -> IF r.res = -1 THEN gone ELSE [gone EXCEPT ![op[2]] = Append(@, r.res)]
               [] op[1] = 1 -> IF r.res = 1 THEN [gone EXCEPT ![op[2]] = @ \o op[4]] ELSE gone
               [] op[1] = 2 -> [gone EXCEPT ![op[3]] = gone[op[2]]]
  /\ UNCHANGED s

(* what a stream has gone through and what is ahead of it make the text *)
Faithful == \A r \in 1..2 : gone[r] \o Ahead(s, regs[r]) = s
InText == \A r \in 1..2 : regs[r] \in 0..Len(s)
\* the end, and only the end, has no next character
EndIsEnd == \A r \in 1..2 : HasNext(s, regs[r]) <=> gone[r] # s
Ordered == Compare(regs[1], regs[2]) = -Compare(regs[2], regs[1])
           /\ (Compare(regs[1], regs[2]) = 0 <=> gone[1] = gone[2])
Export == PrintT("@@" \o ToJson([s |-> s, path |-> path, ops |-> Ops]))
\* an operation on a stream leaves the other one alone
Independent == [][\A r \in 1..2 : LET op == path'[Len(path')] IN
                    (IF op[1] = 2 THEN op[3] ELSE op[2]) # r => regs'[r] = regs[r]]_vars
\* streams only go forward, but by cloning
Forward == [][LET op == path'[Len(path')] IN op[1] # 2 => \A r \in 1..2 : regs'[r] >= regs[r]]_vars
=============================================================================
