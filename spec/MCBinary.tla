------------------------------- MODULE MCBinary -------------------------------
(***************************************************************************)
(* All binary documents that follow one of some beginnings with N octets   *)
(* of an alphabet, as far as they are not malformed before: checked        *)
(* against the laws of reading, and written out to be read by the code.    *)
(***************************************************************************)
EXTENDS IonBinary, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
N == P.n
Octets == {P.items[i] : i \in DOMAIN P.items}
Beginnings == {P.beginnings[i] : i \in DOMAIN P.beginnings}

VARIABLES doc, left, res
vars == <<doc, left, res>>

Marker == <<224, 1, 0, 234>>

Init == /\ doc \in {Marker \o b : b \in Beginnings}
        /\ left = N
        /\ res = BinDecode(doc)

Next ==
  /\ left > 0
  /\ res.k # "err"
  /\ \E o \in Octets :
       /\ doc' = Append(doc, o)
       /\ left' = left - 1
       /\ res' = BinDecode(doc')
       /\ ((left = 1 \/ res'.k = "err") => PrintT("@@" \o ToJson(doc')))

Spec == Init /\ [][Next]_vars

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

(* Containers are closed in order, depths count them, fields are named in structs only. *)
RECURSIVE Nested(_, _)
Nested(evs, stk) ==
  evs = <<>> \/
  LET e == Head(evs) d == Len(stk)
  IN CASE e.e = "start" -> e.d = d /\ (e.f # <<>> <=> (d > 0 /\ stk[d] = "struct")) /\ Nested(Tail(evs), Append(stk, e.t))
       [] e.e = "end" -> d > 0 /\ e.d = d - 1 /\ e.t = stk[d] /\ Nested(Tail(evs), SubSeq(stk, 1, d - 1))
       [] e.e = "val" -> e.d = d /\ (e.f # <<>> <=> (d > 0 /\ stk[d] = "struct")) /\ Nested(Tail(evs), stk)
       [] OTHER -> d = 0 /\ Nested(Tail(evs), stk)
WellNested == Nested(res.evs, <<>>)

(* What has been reported does not depend on what follows. *)
Causal == LET p == BinDecode(SubSeq(doc, 1, Len(doc) - 1))
          IN Len(doc) > 4 => IsPrefixOf(p.evs, res.evs) /\ (p.k = "err" => res.k = "err" /\ res.evs = p.evs)

(* Skipping leads where reading leads. *)
RECURSIVE ReadEnd(_, _)
ReadEnd(st, dep) == LET r == BinNext(doc, Len(doc), st)
                    IN IF r.k = "ev" /\ ~(r.ev.e = "end" /\ r.ev.d = dep - 1) THEN ReadEnd(r.st, dep) ELSE r
RECURSIVE SkipsFrom(_)
SkipsFrom(st) ==
  LET r == BinNext(doc, Len(doc), st)
  IN r.k = "ev" =>
       /\ (r.ev.e = "start" =>
             LET read == ReadEnd(r.st, Len(r.st.stk)) skip == BinSkip(doc, Len(doc), r.st)
             IN /\ (read.k = "ev" => skip = read)
                /\ (skip.k = "inc" => read.k \in {"inc", "err"}))
       /\ SkipsFrom(r.st)
SkipIsRead == SkipsFrom(BinInit)
=============================================================================
