----------------------------- MODULE TraceWrite -----------------------------
(***************************************************************************)
(* Conformance of recorded runs of the writers with IonWriter.             *)
(*                                                                         *)
(* A case is a context and ops: [o, ev, r, evs].  o = "ev": an event was   *)
(* given; "take": nothing was given (None); "back": the library's own      *)
(* reader was given the output so far and reported evs.  r = [s, data].    *)
(***************************************************************************)
EXTENDS IonWriter, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i, j, st, verdict
vars == <<i, j, st, verdict>>

Report(v, clause, k) == PrintT("@@" \o ToJson([i |-> i, v |-> v, clause |-> clause, op |-> k, why |-> ""]))

Init == i \in 1..Len(Cases) /\ j = 0 /\ st = WInit /\ verdict = "run"

Step ==
  /\ verdict = "run"
  /\ UNCHANGED i
  /\ LET c == Cases[i]
     IN IF j = Len(c.ops)
        THEN /\ UNCHANGED <<j, st>>
             /\ verdict' = "accept"
             /\ Report("accept", IF st.dead THEN "misuse rejected" ELSE IF st.un THEN "unspecified" ELSE "conforms", j)
        ELSE LET r == WriteJudge(c, st, c.ops[j + 1])
             IN /\ j' = j + 1 /\ st' = r.st /\ verdict' = r.v
                /\ (r.v # "run" => Report(r.v, r.clause, j + 1))

Spec == Init /\ [][Step]_vars
=============================================================================
