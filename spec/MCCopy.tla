-------------------------------- MODULE MCCopy --------------------------------
(***************************************************************************)
(* All streams of at most N of some items, read and written again by the   *)
(* specification: the copy denotes what the original does, with nothing of *)
(* its symbol tables, and a copy of the copy is the copy.                  *)
(***************************************************************************)
EXTENDS IonEncode, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
Items == P.items       \* bytes
Contexts == P.contexts \* of the writer

VARIABLES seq, doc, k, st, evs
vars == <<seq, doc, k, st, evs>>

RECURSIVE Go(_, _, _)
Go(d, s, acc) == LET r == ManNext([codec |-> "bin", doc |-> d, cat |-> P.cat, man |-> TRUE], d, Len(d), FALSE, s)
                 IN IF r.k = "ev" THEN Go(d, r.st, Append(acc, r.ev))
                    ELSE [k |-> r.k, st |-> IF r.k \in {"inc", "eos"} THEN r.at ELSE s, evs |-> acc]

Init == /\ seq = <<>> /\ doc = IVM /\ k = "eos"
        /\ st = Go(IVM, BinInit @@ [tab |-> SystemTab], <<>>).st
        /\ evs = <<>>

Next ==
  /\ Len(seq) < P.n
  /\ k = "eos"
  /\ \E i \in DOMAIN Items :
       LET d == doc \o Items[i]
           r == Go(d, st, evs)
       IN /\ seq' = Append(seq, i) /\ doc' = d
          /\ k' = r.k /\ st' = r.st /\ evs' = r.evs
          /\ (Len(seq') = P.n \/ r.k # "eos" => PrintT("@@" \o ToJson(seq')))

Spec == Init /\ [][Next]_vars

Known(tok) == tok = <<>> \/ tok[1] = <<1>> \/ tok = <<<<0>>, <<0>>>>
Writable == \A x \in DOMAIN evs : \A tok \in Tokens(evs[x]) : Known(tok)
Copied == \A c \in DOMAIN Contexts :
            k = "eos" /\ Writable /\ evs # <<>> =>
              LET one == Encode(Contexts[c], evs)
                  w == Denotes(Contexts[c], one)
              IN w.k = "eos" /\ SameEvents(w.evs, evs) /\ Encode(Contexts[c], w.evs) = one
=============================================================================
