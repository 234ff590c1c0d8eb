------------------------------- MODULE TraceCopy -------------------------------
(***************************************************************************)
(* A managed reader piped into a writer: every event that the reader       *)
(* reports (but INCOMPLETE) is given to the writer as it is.  The system   *)
(* is the product of both machines; its output has to denote what the      *)
(* document denotes.  A case is a document [codec, doc, man, cat, block],  *)
(* out (the writer's context) and ops: [o, k, r] as TraceRead has it, and  *)
(* w, the answers [s, data] of the writer to that event.                   *)
(***************************************************************************)
EXTENDS IonReader, IonWriter, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i, j, doc, st, m, w, verdict
vars == <<i, j, doc, st, m, w, verdict>>

Report(v, clause, k) == PrintT("@@" \o ToJson([i |-> i, v |-> v, clause |-> clause, op |-> k, why |-> ""]))

\* Symbols of unknown text (but that of ID 0) mean nothing in another stream
Known(tok) == tok = <<>> \/ tok[1] = <<1>> \/ tok = <<<<0>>, <<0>>>>
Foreign(ev) == \E tok \in {ev.f} \cup {ev.a[k] : k \in 1..Len(ev.a)} \cup (IF ev.e = "val" /\ ev.t = "symbol" THEN {ev.v} ELSE {}) : ~Known(tok)

Init == /\ i \in 1..Len(Cases)
        /\ j = 0
        /\ doc = IF Cases[i].codec = "bytes" THEN Utf8Decode(Cases[i].doc).cps ELSE Cases[i].doc
        /\ st = (IF Bin(Cases[i]) THEN BinInit ELSE TextInit) @@ [tab |-> SystemTab]
        /\ m = [n |-> 0, eof |-> FALSE, last |-> "none", pend |-> "next", bad |-> ""]
        /\ w = WInit
        /\ verdict = "run"

\* The writer is given ev and answers xs
RECURSIVE Fed(_, _, _, _, _)
Fed(c, s, ev, xs, k) ==
  IF k > Len(xs) THEN WriteOut("run", "", s)
  ELSE LET r == WriteJudge(c, s, [o |-> IF k = 1 THEN "ev" ELSE "take", ev |-> ev, r |-> xs[k], evs |-> <<>>])
       IN IF r.v # "run" \/ r.st.dead THEN r ELSE Fed(c, r.st, ev, xs, k + 1)

Stop(v, clause) == verdict' = v /\ Report(v, clause, j + 1) /\ UNCHANGED w

Step ==
  /\ verdict = "run"
  /\ UNCHANGED <<i, doc>>
  /\ LET c == Cases[i]
     IN IF j = Len(c.ops)
        THEN UNCHANGED <<j, st, m, w>> /\ verdict' = "accept" /\ Report("accept", "conforms", j)
        ELSE LET op == c.ops[j + 1]
                 r == ReadJudge(c, doc, st, m, op)
                 f == Fed(c.out, w, op.r @@ [bad |-> FALSE], op.w, 1)
             IN /\ j' = j + 1 /\ st' = r.st /\ m' = r.m
                /\ IF r.v # "run" THEN Stop(r.v, r.clause)
                   ELSE IF r.m.bad # "" THEN Stop("accept", "malformed")
                   ELSE IF op.r.e = "inc" THEN w' = w /\ verdict' = "run"
                   ELSE IF Foreign(op.r) THEN Stop("accept", "unspecified")
                   ELSE IF f.v # "run" THEN Stop(f.v, "copy: " \o f.clause)
                   ELSE IF f.st.dead THEN Stop("reject", "copy: the event of a reader is refused")
                   ELSE w' = f.st /\ verdict' = "run"

Spec == Init /\ [][Step]_vars
=============================================================================
