------------------------------- MODULE ConfRun -------------------------------
(* Conformance of recorded executions: every record of the trace file is the run
   of a generated function on an input; the specification computes the expected
   outcome and names the fields that differ.                                   *)
EXTENDS OakResult, Json, IOUtils

Gs == JsonDeserialize(IOEnv.CASES)

Trace == ndJsonDeserialize(IOEnv.TRACE)

Lanes == 64

SetOf(q) == {q[n] : n \in 1..Len(q)}
Off(r) == OffsetsFrom(r.s, r.base)

\* Names of the observations that the specification does not allow.
Wrong(r) ==
  IF r.st # "ok" THEN {"status"}
  ELSE
  LET inp == [s |-> r.s, off |-> Off(r)]
      off0 == Offsets(r.s)
      out == RunRule(Gs, r.g, r.r, inp, r.skip, IF r.mode = 0 THEN "P" ELSE "R")
      kind == ResultKind(r.s, out)
      exp == SetOf(r.exp)
      t(name, ok) == IF ok THEN {} ELSE {name}
  IN  t("success", r.failed = ~out.ok /\ r.succ = out.ok)
      \cup t("position", out.ok => r.cur = inp.off[out.p + 1])
      \cup t("farthest", r.far = inp.off[out.far + 1])
      \cup t("expected", exp = out.exp)
      \cup t("value", r.data = IF out.ok THEN IF r.mode = 0 THEN out.v ELSE <<6>> ELSE <<>>)
      \cup t("actions", r.log = out.log)
      \cup t("kind", r.kind = kind)
      \cup t("location", r.loc = LocationText(r.s, off0, out.far))
      \cup t("snippet", r.snip = SnippetText(r.s, off0, out.far, 10))
      \cup t("message", IF kind = 1 THEN r.msg = <<>> ELSE IsMessage(r.msg, r.s, off0, out.far, out.exp))

VARIABLE n
Init == n \in 1..Lanes
Next == n <= Len(Trace) /\ n' = n + Lanes
Expected(r) ==
  LET out == RunRule(Gs, r.g, r.r, [s |-> r.s, off |-> Off(r)], r.skip, IF r.mode = 0 THEN "P" ELSE "R")
  IN [ok |-> out.ok, p |-> out.p, far |-> out.far, v |-> out.v, log |-> out.log, exp |-> out.exp]
Check ==
  n <= Len(Trace) =>
    LET w == Wrong(Trace[n]) IN
    w # {} => PrintT("@@" \o ToJson([n |-> n, wrong |-> w, expect |-> Expected(Trace[n])]))
=============================================================================
