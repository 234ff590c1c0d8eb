---------------------------- MODULE TraceTimestamp ----------------------------
(***************************************************************************)
(* Conformance of recorded histories of timestamp objects.  A case is      *)
(* [ops, after]: ops is a sequence of [q, r] (see IonTimestamp!Fault);     *)
(* q.s is the number of the operation that made the object it works on     *)
(* (0: none); after holds every object as it was at the end.               *)
(***************************************************************************)
EXTENDS IonTimestamp, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i, j, verdict
vars == <<i, j, verdict>>

Judge(c, k) ==
  LET op == c.ops[k]
  IN IF op.r.k = "hang" THEN "no answer"
     ELSE IF op.r.k = "bad" THEN "fields that are no timestamp"
     ELSE Fault(op.q, IF op.q.s = 0 THEN [c |-> "none"] ELSE c.ops[op.q.s].r.o, op.r)

Changed(c) == \E k \in 1..Len(c.ops) : c.ops[k].r.k = "ok" /\ c.after[k] # c.ops[k].r

Report(v, clause, k) == PrintT("@@" \o ToJson([i |-> i, v |-> v, clause |-> clause, op |-> k, why |-> ""]))

Init == i \in 1..Len(Cases) /\ j = 0 /\ verdict = "run"

Step ==
  /\ verdict = "run"
  /\ UNCHANGED i
  /\ LET c == Cases[i]
     IN IF j = Len(c.ops)
        THEN /\ UNCHANGED j
             /\ IF Changed(c) THEN verdict' = "reject" /\ Report("reject", "an operation changed its operand", j)
                ELSE verdict' = "accept" /\ Report("accept", "conforms", j)
        ELSE LET w == Judge(c, j + 1)
             IN /\ j' = j + 1 /\ verdict' = (IF w = "" THEN "run" ELSE "reject")
                /\ (w # "" => Report("reject", c.ops[j + 1].q.op \o ": " \o w, j + 1))

Spec == Init /\ [][Step]_vars
=============================================================================
