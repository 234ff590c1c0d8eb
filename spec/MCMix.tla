--------------------------------- MODULE MCMix ---------------------------------
(***************************************************************************)
(* Readers side by side: the product of their machines, all interleavings. *)
(* What each reports is what it reports alone.                             *)
(***************************************************************************)
EXTENDS IonManaged, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)

VARIABLES group, st, evs, order
vars == <<group, st, evs, order>>

Docs == P.groups[group]
Ctx(w) == [codec |-> Docs[w].codec, doc |-> Docs[w].doc, cat |-> P.cat, man |-> TRUE]
Start(d) == (IF d.codec = "bin" THEN BinInit ELSE TextInit) @@ [tab |-> SystemTab]
Serve(w, s) == ManNext(Ctx(w), Docs[w].doc, Len(Docs[w].doc), TRUE, s)

Init == /\ group \in DOMAIN P.groups
        /\ st = [w \in DOMAIN Docs |-> Start(Docs[w])]
        /\ evs = [w \in DOMAIN Docs |-> <<>>]
        /\ order = <<>>

Ended(w) == evs[w] # <<>> /\ evs[w][Len(evs[w])].e = "eos"

\* One request to each reader until it has said that the stream ends
Next ==
  \E w \in DOMAIN Docs :
    /\ ~Ended(w)
    /\ UNCHANGED group
    /\ LET r == Serve(w, st[w])
       IN IF r.k = "ev" THEN st' = [st EXCEPT ![w] = r.st] /\ evs' = [evs EXCEPT ![w] = Append(@, r.ev)]
          ELSE st' = st /\ evs' = [evs EXCEPT ![w] = Append(@, SigEv("eos"))]
    /\ order' = Append(order, w)
    /\ ((\A x \in DOMAIN Docs : Ended(x)') => PrintT("@@" \o ToJson(<<group, order'>>)))

Spec == Init /\ [][Next]_vars

Alone(w) == LET RECURSIVE Go(_, _)
                Go(s, acc) == LET r == Serve(w, s) IN IF r.k = "ev" THEN Go(r.st, Append(acc, r.ev)) ELSE Append(acc, SigEv("eos"))
            IN Go(Start(Docs[w]), <<>>)
Independent == \A w \in DOMAIN Docs : evs[w] = SubSeq(Alone(w), 1, Len(evs[w]))
=============================================================================
