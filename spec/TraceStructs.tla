----------------------------- MODULE TraceStructs -----------------------------
(***************************************************************************)
(* Conformance of recorded histories of multimaps.  A case is [ops, after]:*)
(* ops a sequence of [q, r], after the pairs of every object at the end.   *)
(***************************************************************************)
EXTENDS Structs, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i, j, st, verdict
vars == <<i, j, st, verdict>>

Report(v, clause, k) == PrintT("@@" \o ToJson([i |-> i, v |-> v, clause |-> clause, op |-> k, why |-> ""]))

Init == i \in 1..Len(Cases) /\ j = 0 /\ st = <<>> /\ verdict = "run"

Step ==
  /\ verdict = "run"
  /\ UNCHANGED i
  /\ LET c == Cases[i]
     IN IF j = Len(c.ops)
        THEN /\ UNCHANGED <<j, st>>
             /\ IF Len(c.after) = Len(st) /\ \A k \in 1..Len(st) : SamePairs(c.after[k], st[k])
                THEN verdict' = "accept" /\ Report("accept", "conforms", j)
                ELSE verdict' = "reject" /\ Report("reject", "an object changed without a request to it", j)
        ELSE LET op == c.ops[j + 1]
                 w == Apply(st, op.q)
                 ok == Allowed(op.q, w.r, op.r)
             IN /\ j' = j + 1 /\ st' = w.st /\ verdict' = (IF ok THEN "run" ELSE "reject")
                /\ (~ok => Report("reject", "wrong answer to " \o op.q.op, j + 1))

Spec == Init /\ [][Step]_vars
=============================================================================
