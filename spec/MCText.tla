-------------------------------- MODULE MCText --------------------------------
(***************************************************************************)
(* All text documents that follow one of some beginnings with N characters *)
(* of an alphabet, as far as they are not malformed before: checked        *)
(* against the laws of reading, and written out to be read by the code.    *)
(***************************************************************************)
EXTENDS IonText, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
N == P.n
Chars == {P.items[i] : i \in DOMAIN P.items}
Beginnings == {P.beginnings[i] : i \in DOMAIN P.beginnings}

VARIABLES doc, left, res
vars == <<doc, left, res>>

\* The events of the first n characters, nothing being said about what follows (or that nothing does)
Read(d, eof) ==
  LET X == [c |-> d, n |-> Len(d), eof |-> eof]
      RECURSIVE Go(_, _)
      Go(s, acc) == LET r == TextNext(X, s) IN IF r.k = "ev" THEN Go(r.st, Append(acc, r.ev)) ELSE [k |-> r.k, evs |-> acc]
  IN Go(TextInit, <<>>)

Init == /\ doc \in Beginnings
        /\ left = N
        /\ res = Read(doc, FALSE)

Next ==
  /\ left > 0
  /\ res.k \notin {"err", "un"}
  /\ \E o \in Chars :
       /\ doc' = Append(doc, o)
       /\ left' = left - 1
       /\ res' = Read(doc', FALSE)
       /\ ((left = 1 \/ res'.k \in {"err", "un"}) => PrintT("@@" \o ToJson(doc')))

Spec == Init /\ [][Next]_vars

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
RECURSIVE Nested(_, _)
Nested(evs, stk) ==
  evs = <<>> \/
  LET e == Head(evs) d == Len(stk)
  IN CASE e.e = "start" -> e.d = d /\ (e.f # <<>> <=> (d > 0 /\ stk[d] = "struct")) /\ Nested(Tail(evs), Append(stk, e.t))
       [] e.e = "end" -> d > 0 /\ e.d = d - 1 /\ e.t = stk[d] /\ Nested(Tail(evs), SubSeq(stk, 1, d - 1))
       [] e.e = "val" -> e.d = d /\ (e.f # <<>> <=> (d > 0 /\ stk[d] = "struct")) /\ Nested(Tail(evs), stk)
       [] OTHER -> d = 0 /\ Nested(Tail(evs), stk)
WellNested == Nested(res.evs, <<>>)

(* What has been reported does not depend on what follows, or on whether anything does. *)
Causal == LET p == Read(SubSeq(doc, 1, Len(doc) - 1), FALSE)
          IN doc # <<>> => IsPrefixOf(p.evs, res.evs) /\ (p.k = "err" => res.k = "err" /\ res.evs = p.evs)
Final == IsPrefixOf(res.evs, Read(doc, TRUE).evs)
=============================================================================
