------------------------------ MODULE TraceBuffer ------------------------------
(***************************************************************************)
(* Conformance of recorded histories of the input buffer.  A case is a     *)
(* sequence ops of [q, r]; r = [k, v, len, pos].                           *)
(***************************************************************************)
EXTENDS Buffer, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i, j, st, verdict
vars == <<i, j, st, verdict>>

Report(v, clause, k) == PrintT("@@" \o ToJson([i |-> i, v |-> v, clause |-> clause, op |-> k, why |-> ""]))

Init == i \in 1..Len(Cases) /\ j = 0 /\ st = Empty /\ verdict = "run"

Step ==
  /\ verdict = "run"
  /\ UNCHANGED i
  /\ LET c == Cases[i]
     IN IF j = Len(c.ops)
        THEN UNCHANGED <<j, st>> /\ verdict' = "accept" /\ Report("accept", "conforms", j)
        ELSE LET op == c.ops[j + 1]
                 may == Outcomes(st, op.q)
                 good == {w \in may : w.k = op.r.k /\ w.v = op.r.v}
                 fit == {w \in good : Len(w.s.q) = op.r.len /\ w.s.pos = op.r.pos}
             IN /\ j' = j + 1
                /\ IF fit # {} THEN verdict' = "run" /\ st' = (CHOOSE w \in fit : TRUE).s
                   ELSE /\ verdict' = "reject" /\ UNCHANGED st
                        /\ Report("reject", IF good = {} THEN "wrong answer to " \o op.q.op ELSE "wrong length or position after " \o op.q.op, j + 1)

Spec == Init /\ [][Step]_vars
=============================================================================
