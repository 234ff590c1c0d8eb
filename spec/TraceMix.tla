------------------------------- MODULE TraceMix -------------------------------
(***************************************************************************)
(* Independence.  The instances of a case (readers, writers, dumps, ...)   *)
(* are machines of their own: the system is their product, in which a step *)
(* of one leaves all others, and whatever they share, as they are.  What a *)
(* machine does is its behaviour alone (recorded in a process in which     *)
(* nothing else was done); a recorded interleaving has to be a behaviour   *)
(* of the product.  A case is                                              *)
(*   [alone: answers of each instance, later: the same once more when all  *)
(*    was done, run: sequence of [w: instance, r: answer],                 *)
(*    before: shared objects when new, after: the copies in use at the end]*)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i, j, pos, verdict
vars == <<i, j, pos, verdict>>

Report(v, clause, k) == PrintT("@@" \o ToJson([i |-> i, v |-> v, clause |-> clause, op |-> k, why |-> ""]))

Init ==
  /\ i \in 1..Len(Cases)
  /\ j = 0
  /\ pos = [w \in 1..Len(Cases[i].alone) |-> 0]
  /\ verdict = "run"

Finished(c) ==
  IF \E w \in DOMAIN pos : pos[w] # Len(c.alone[w]) THEN "fewer answers than alone"
  ELSE IF \E k \in 1..Len(c.before) : \E m \in 1..Len(c.after[k]) : c.after[k][m] # c.before[k] THEN "a shared object changed"
  ELSE IF c.later # c.alone THEN "not the same afterwards"
  ELSE ""

Step ==
  /\ verdict = "run"
  /\ UNCHANGED i
  /\ LET c == Cases[i]
     IN IF j = Len(c.run)
        THEN LET f == Finished(c)
             IN /\ UNCHANGED <<j, pos>>
                /\ verdict' = (IF f = "" THEN "accept" ELSE "reject")
                /\ Report(IF f = "" THEN "accept" ELSE "reject", IF f = "" THEN "conforms" ELSE f, j)
        ELSE LET s == c.run[j + 1]
                 n == pos[s.w] + 1
                 ok == n <= Len(c.alone[s.w]) /\ c.alone[s.w][n] = s.r
             IN /\ j' = j + 1
                /\ pos' = [pos EXCEPT ![s.w] = n]
                /\ verdict' = (IF ok THEN "run" ELSE "reject")
                /\ (~ok => Report("reject", "another answer than alone", j + 1))

Spec == Init /\ [][Step]_vars
=============================================================================
