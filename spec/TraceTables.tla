------------------------------ MODULE TraceTables ------------------------------
(***************************************************************************)
(* Conformance of recorded histories of symbol tables and a catalog.  A    *)
(* case is [ops, after]: ops a sequence of [q, r, max] (max: the size of   *)
(* the table asked, or made, afterwards, or <<>>), after every table as it *)
(* was at the end: [ty, n, v, sub, ss, max, tab], ss the IDs of its slots. *)
(***************************************************************************)
EXTENDS Tables, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i, j, st, verdict
vars == <<i, j, st, verdict>>

Report(v, clause, k) == PrintT("@@" \o ToJson([i |-> i, v |-> v, clause |-> clause, op |-> k, why |-> ""]))

Init == i \in 1..Len(Cases) /\ j = 0 /\ st = Start /\ verdict = "run"

Wrong(t, o) ==
  IF ~SameTable(t, o) THEN "another table than it should be"
  ELSE IF o.max # Len(t.tab) \/ o.ss # [s \in 1..Len(t.tab) |-> s] THEN "the IDs are not dense from 1"
  ELSE ""

Step ==
  /\ verdict = "run"
  /\ UNCHANGED i
  /\ LET c == Cases[i]
     IN IF j = Len(c.ops)
        THEN LET bad == {k \in 1..Len(st.ts) : Wrong(st.ts[k], c.after[k]) # ""}
             IN /\ UNCHANGED <<j, st>>
                /\ IF Len(c.after) # Len(st.ts) THEN verdict' = "reject" /\ Report("reject", "tables", 0)
                   ELSE IF bad = {} THEN verdict' = "accept" /\ Report("accept", "conforms", j)
                   ELSE LET k == CHOOSE k \in bad : TRUE
                        IN /\ verdict' = "reject"
                           /\ Report("reject", Wrong(st.ts[k], c.after[k]), c.made[k])
        ELSE LET op == c.ops[j + 1]
                 w == Apply(st, op.q)
                 ok == w.r = op.r
             IN /\ j' = j + 1 /\ st' = w.st /\ verdict' = (IF ok THEN "run" ELSE "reject")
                /\ (~ok => Report("reject", "wrong answer to " \o op.q.op, j + 1))

Spec == Init /\ [][Step]_vars
=============================================================================
