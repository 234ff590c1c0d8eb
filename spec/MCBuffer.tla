------------------------------- MODULE MCBuffer -------------------------------
(***************************************************************************)
(* All histories of N requests to the input buffer.  fed is all that was   *)
(* ever put in: what was consumed and what is left are always the two      *)
(* parts of it.                                                            *)
(***************************************************************************)
EXTENDS Buffer, Json

CONSTANTS N

VARIABLES s, hist, fed
vars == <<s, hist, fed>>

Req(op, d, n) == [op |-> op, d |-> d, n |-> n]
Unit(k) == 96 + Len(fed) + k

Requests ==
  LET clean == \A i \in 1..Len(s.q) : s.q[i] # EOF
      here == Len(s.q)
  IN (IF clean THEN {Req("extend", [i \in 1..k |-> Unit(i)], 0) : k \in {0, 1, 2, 3}} \cup {Req("eof", <<>>, 0)} ELSE {})
     \cup (IF clean THEN {Req("read", <<>>, k) : k \in {0, 1, 2, here, here + 1}} ELSE {Req("read", <<>>, here + 1)})
     \cup {Req("byte", <<>>, 0), Req("rest", <<>>, 0), Req("wrong", <<>>, 0)}
     \cup {Req("skip", <<>>, k) : k \in {0, 1, 3}}
     \cup (IF s.pos = 0 THEN {Req("unread", <<97>>, 0)}
           ELSE IF s.last # <<>> /\ s.last[Len(s.last)] # EOF THEN {Req("unread", <<s.last[Len(s.last)]>>, 0), Req("unread", <<s.last[Len(s.last)]>>, 1)} ELSE {})

Init == s = Empty /\ hist = <<>> /\ fed = <<>>

Next ==
  /\ Len(hist) < N
  /\ \E r \in Requests :
       \E w \in Outcomes(s, r) :
         /\ s' = w.s
         /\ hist' = Append(hist, r)
         /\ fed' = IF r.op = "extend" THEN fed \o r.d ELSE IF r.op = "eof" THEN Append(fed, EOF) ELSE fed
         /\ (Len(hist) = N - 1 => PrintT("@@" \o ToJson(hist')))

Spec == Init /\ [][Next]_vars

Conserved == /\ s.pos + Len(s.q) = Len(fed)
             /\ s.q = Drop(fed, s.pos)
             /\ s.last = Take(fed, s.pos)
=============================================================================
