----------------------------- MODULE TraceRead -----------------------------
(***************************************************************************)
(* Conformance of recorded runs of the readers with the specification.     *)
(*                                                                         *)
(* A case is [codec, doc, man, cat, ops]: the whole document ("bin":       *)
(* bytes, "text": code points, "bytes": the bytes of UTF-8 text), whether  *)
(* the reader manages symbol tables, its catalog, and what was asked of    *)
(* the reader and what it answered: [o, k, r] with o in "next", "skip",    *)
(* "data" (the next k items of the document), "empty" (data of length 0),  *)
(* and r the event or error observed.  One behaviour per case, one step    *)
(* per request.                                                            *)
(***************************************************************************)
EXTENDS IonReader, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i,      \* the case
          j,      \* requests consumed
          doc,    \* the document as the specification reads it
          st,     \* state of the specification's reader
          m,      \* [n, eof, last, pend, bad]: items received, flushed, last answer,
                  \* the request being served, the rule the document broke
          verdict \* "run", "accept", "reject"

vars == <<i, j, doc, st, m, verdict>>

Report(v, clause, k, cc) == PrintT("@@" \o ToJson([i |-> i, v |-> v, clause |-> clause, op |-> k, why |-> cc]))

Init == /\ i \in 1..Len(Cases)
        /\ j = 0
        /\ doc = IF Cases[i].codec = "bytes" THEN Utf8Decode(Cases[i].doc).cps ELSE Cases[i].doc
        /\ st = (IF Bin(Cases[i]) THEN BinInit ELSE TextInit) @@ [tab |-> SystemTab]
        /\ m = [n |-> IF Cases[i].block THEN Len(Cases[i].doc) ELSE 0, eof |-> Cases[i].block, last |-> "none", pend |-> "next", bad |-> ""]
        /\ verdict = "run"

Step ==
  /\ verdict = "run"
  /\ UNCHANGED <<i, doc>>
  /\ LET c == Cases[i]
     IN IF j = Len(c.ops)
        THEN /\ UNCHANGED <<j, st, m>>
             /\ verdict' = IF m.bad # "" /\ m.last = "eos" THEN "reject" ELSE "accept"
             /\ Report(verdict', IF verdict' = "reject" THEN "malformed input accepted"
                                 ELSE IF m.bad # "" THEN "malformed never ends cleanly" ELSE "conforms", j, m.bad)
        ELSE LET r == ReadJudge(c, doc, st, m, c.ops[j + 1])
             IN /\ j' = j + 1 /\ st' = r.st /\ m' = r.m /\ verdict' = r.v
                /\ (r.v # "run" => Report(r.v, r.clause, j + 1, r.m.bad))

Spec == Init /\ [][Step]_vars
=============================================================================
