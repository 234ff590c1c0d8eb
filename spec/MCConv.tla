-------------------------------- MODULE MCConv --------------------------------
(***************************************************************************)
(* All histories of N requests to Ion values as Python objects, starting   *)
(* from one of some objects.                                               *)
(***************************************************************************)
EXTENDS IonPy, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)

VARIABLES made, hist, st, last
vars == <<made, hist, st, last>>

Init == /\ made \in DOMAIN P.makes
        /\ hist = <<>>
        /\ st = Apply(<<>>, P.makes[made]).st
        /\ last = [k |-> "ok", v |-> st[1].o]

Possible(q) ==
  LET o == st[q.o].o
  IN /\ ~st[q.o].loose
     /\ q.op \in {"push", "inner"} => IsContainer(o)
     /\ q.op = "inner" => Inner(o) # {}

Next ==
  /\ Len(hist) < P.n
  /\ UNCHANGED made
  /\ \E i \in DOMAIN P.requests, o \in DOMAIN st :
       LET q == [P.requests[i] EXCEPT !.o = o]
       IN /\ Possible(q)
          /\ LET w == Apply(st, q) IN st' = w.st /\ last' = w.r
          /\ hist' = Append(hist, <<i, o>>)
          /\ (Len(hist') = P.n => PrintT("@@" \o ToJson(<<made, hist'>>)))

Spec == Init /\ [][Next]_vars

(* Objects that share their members agree, until members are added to one of them. *)
Whole == \A k \in DOMAIN st : st[k].o.c = Class(st[k].o.t, st[k].o.n, st[k].o.c)
\* Nothing changes but what is asked to
Still == [][\A k \in DOMAIN st : st'[k] = st[k] \/ (\E q \in {hist'[Len(hist')]} : P.requests[q[1]].op \in {"push", "inner"} /\ (q[2] = k \/ st[q[2]].h = st[k].h))]_vars
\* What is said is what is there
Told == last.k = "ok" => \E k \in DOMAIN st : st[k].o = last.v
=============================================================================
