------------------------------- MODULE TraceEq -------------------------------
(***************************************************************************)
(* Conformance of recorded answers of ion_equals.  A case is a sequence of *)
(* values xs and of questions ops: [a, b, inst, r], where a and b are      *)
(* positions in xs and r the answer, "t" or "f", or "err" or "hang".       *)
(***************************************************************************)
EXTENDS IonEq, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i, j, verdict
vars == <<i, j, verdict>>

Judge(c, k) ==
  LET op == c.ops[k]
      want == Eq(c.xs[op.a], c.xs[op.b], op.inst)
  IN IF op.r = "hang" THEN "no answer"
     ELSE IF op.r = "err" THEN "no answer but an error"
     ELSE IF want = "t" /\ op.r = "f" THEN "equal values told apart"
     ELSE IF want = "f" /\ op.r = "t" THEN "different values taken for equal"
     ELSE IF \E q \in 1..(k - 1) : c.ops[q].a = op.b /\ c.ops[q].b = op.a /\ c.ops[q].inst = op.inst /\ c.ops[q].r # op.r
     THEN "the order of the operands matters"
     ELSE ""

Report(v, clause, k) == PrintT("@@" \o ToJson([i |-> i, v |-> v, clause |-> clause, op |-> k, why |-> ""]))

Init == i \in 1..Len(Cases) /\ j = 0 /\ verdict = "run"

Step ==
  /\ verdict = "run"
  /\ UNCHANGED i
  /\ LET c == Cases[i]
     IN IF j = Len(c.ops)
        THEN UNCHANGED j /\ verdict' = "accept" /\ Report("accept", "conforms", j)
        ELSE LET w == Judge(c, j + 1)
             IN /\ j' = j + 1 /\ verdict' = (IF w = "" THEN "run" ELSE "reject")
                /\ (w # "" => Report("reject", w, j + 1))

Spec == Init /\ [][Step]_vars
=============================================================================
