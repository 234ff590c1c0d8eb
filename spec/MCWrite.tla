-------------------------------- MODULE MCWrite --------------------------------
(***************************************************************************)
(* All histories of at most N requests to a writer, from an alphabet of    *)
(* events.  At the end of every segment what was asked for is encoded by   *)
(* the specification, and has to be what that encoding denotes.  What the  *)
(* protocol forbids ends a history.                                        *)
(***************************************************************************)
EXTENDS IonEncode, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
Events == P.events

VARIABLES c, hist, s
vars == <<c, hist, s>>

Init == /\ c \in {P.contexts[i] : i \in DOMAIN P.contexts}
        /\ hist = <<>>
        /\ s = WInit

Next ==
  /\ Len(hist) < P.n
  /\ ~s.dead
  /\ UNCHANGED c
  /\ \E i \in DOMAIN Events :
       LET ev == Events[i]
           \* a segment ends with its flush
           s0 == IF c.bin /\ s.last = "comp" THEN [s EXCEPT !.exp = <<>>, !.vals = FALSE, !.un = FALSE] ELSE s
           ok == LegalEvent(c, s0, ev)
           un == s0.un \/ (ok /\ ev.e \in {"val", "start"} /\ \E tok \in Tokens(ev) : Written(c, tok).un)
           s1 == [s0 EXCEPT !.un = un]
           s2 == Apply(c, s1, ev)
       IN /\ hist' = Append(hist, i)
          /\ s' = IF ok THEN [s2 EXCEPT !.last = Final(c, s2, ev)] ELSE [s EXCEPT !.dead = TRUE]
          /\ ((~ok \/ Len(hist') = P.n) => PrintT("@@" \o ToJson([c |-> c.id, h |-> hist', doc |-> IF P.docs /\ ok THEN Encode(c, s'.exp) ELSE <<>>])))

Spec == Init /\ [][Next]_vars

RECURSIVE Nested(_, _)
Nested(evs, stk) ==
  IF evs = <<>> THEN stk = s.stk
  ELSE LET e == Head(evs) d == Len(stk)
       IN CASE e.e = "start" -> e.d = d /\ (e.f # <<>> <=> (d > 0 /\ stk[d] = "struct")) /\ Nested(Tail(evs), Append(stk, e.t))
            [] e.e = "end" -> d > 0 /\ e.d = d - 1 /\ e.t = stk[d] /\ Nested(Tail(evs), SubSeq(stk, 1, d - 1))
            [] e.e = "val" -> e.d = d /\ (e.f # <<>> <=> (d > 0 /\ stk[d] = "struct")) /\ Nested(Tail(evs), stk)
            [] OTHER -> d = 0 /\ Nested(Tail(evs), stk)
WellNested == Nested(s.exp, <<>>)

\* What can be asked for can be written
Writable == s.stk = <<>> /\ ~s.dead /\ ~s.un =>
              LET w == Denotes(c, Encode(c, s.exp)) IN w.k = "eos" /\ SameEvents(w.evs, s.exp)
=============================================================================
