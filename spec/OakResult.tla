------------------------------ MODULE OakResult ------------------------------
(* What the user of a generated function observes, as a function of the outcome
   [ok, p, far, exp, v, log] of OakSem: classification of the result, location
   and snippet of the error, message.                                         *)
EXTENDS OakSem

NL == 10

\* Line of character offset p: number of line feeds before p, plus one.
LineOf(s, p) == 1 + Cardinality({n \in 1..p : s[n] = NL})
\* First character of the line of offset p.
LineStart(s, p) ==
  LET nls == {n \in 1..p : s[n] = NL} IN
  IF nls = {} THEN 0 ELSE CHOOSE n \in nls : \A m \in nls : m <= n
\* Columns count bytes, from 1.
ColumnOf(s, off, p) == off[p+1] - off[LineStart(s, p)+1] + 1

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))

Colon == <<58>>
LocationText(s, off, p) == Digits(LineOf(s, p)) \o Colon \o Digits(ColumnOf(s, off, p))

EofText == <<60, 101, 110, 100, 45, 111, 102, 45, 102, 105, 108, 101, 62>>  \* <end-of-file>

\* The longest run of whole characters of at most len bytes from p.
SnippetText(s, off, p, len) ==
  IF p = Len(s) THEN EofText
  ELSE LET fits == {q \in p..Len(s) : off[q+1] - off[p+1] <= len}
           last == CHOOSE q \in fits : \A o \in fits : o <= q
       IN SubSeq(s, p + 1, last)

\* 1 full match, 2 partial match, 3 failure
ResultKind(s, out) == IF ~out.ok THEN 3 ELSE IF out.p = Len(s) THEN 1 ELSE 2

UnexpectedText == <<58, 32, 117, 110, 101, 120, 112, 101, 99, 116, 101, 100, 32, 96>>        \* ": unexpected `"
ExpectingText  == <<96, 44, 32, 101, 120, 112, 101, 99, 116, 105, 110, 103, 32>>             \* "`, expecting "
OrText == <<32, 111, 114, 32>>

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ \A n \in 1..Len(a) : a[n] = b[n]
SuffixFrom(b, n) == SubSeq(b, n + 1, Len(b))

Quoted(item) == <<96>> \o item \o <<96>>

\* Is txt the list of the items of S, in any order, each exactly once, then a dot ?
RECURSIVE ListsItems(_, _)
ListsItems(txt, S) ==
  IF S = {} THEN txt = <<46>>
  ELSE \E item \in S :
         /\ IsPrefixOf(Quoted(item), txt)
         /\ LET rest == SuffixFrom(txt, Len(Quoted(item))) IN
            IF S = {item} THEN rest = <<46>>
            ELSE IsPrefixOf(OrText, rest) /\ ListsItems(SuffixFrom(rest, 4), S \ {item})

\* Is msg the message of the error report (far, exp) on input s ?
IsMessage(msg, s, off, far, exp) ==
  LET head == LocationText(s, off, far) \o UnexpectedText \o SnippetText(s, off, far, 10) \o ExpectingText
  IN IsPrefixOf(head, msg) /\ ListsItems(SuffixFrom(msg, Len(head)), exp)
=============================================================================
