------------------------------ MODULE TraceIonPy ------------------------------
(***************************************************************************)
(* Conformance of recorded conversions.  A case is [ops, after]: ops a     *)
(* sequence of [q, r], after every object as it was at the end.            *)
(***************************************************************************)
EXTENDS IonPy, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i, j, st, verdict
vars == <<i, j, st, verdict>>

Report(v, clause, k) == PrintT("@@" \o ToJson([i |-> i, v |-> v, clause |-> clause, op |-> k, why |-> ""]))

Init == i \in 1..Len(Cases) /\ j = 0 /\ st = <<>> /\ verdict = "run"

Step ==
  /\ verdict = "run"
  /\ UNCHANGED i
  /\ LET c == Cases[i]
     IN IF j = Len(c.ops)
        THEN /\ UNCHANGED <<j, st>>
             /\ IF Len(c.after) = Len(st) /\ \A k \in 1..Len(st) : st[k].loose \/ c.after[k] = st[k].o
                THEN verdict' = "accept" /\ Report("accept", "conforms", j)
                ELSE verdict' = "reject" /\ Report("reject", "an object changed without a request to it", j)
        ELSE LET op == c.ops[j + 1]
                 w == Apply(st, op.q)
                 ok == w.r.k = op.r.k /\ w.r.v = op.r.v
             IN /\ j' = j + 1 /\ st' = w.st /\ verdict' = (IF ok THEN "run" ELSE "reject")
                /\ (~ok => Report("reject", IF op.r.k = "err" THEN op.q.op \o " raises" ELSE "wrong outcome of " \o op.q.op, j + 1))

Spec == Init /\ [][Step]_vars
=============================================================================
