------------------------------ MODULE MCManaged ------------------------------
(***************************************************************************)
(* All streams of at most N of some items: version markers, local symbol   *)
(* tables, look-alikes, and values whose symbols are given by ID.  Each    *)
(* stream is read in both encodings at once, and both readings have to     *)
(* agree in what they report and in the table they arrive at.              *)
(***************************************************************************)
EXTENDS IonManaged, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
Items == P.items       \* [t, b]: code points and bytes

VARIABLES seq,         \* the items so far
          doc, raw,    \* the stream in the two encodings
          text, bin    \* [k, st, evs]: how far reading it gets, and what it reports
vars == <<seq, doc, raw, text, bin>>

RECURSIVE Go(_, _, _, _, _)
Go(c, d, eof, s, acc) == LET r == ManNext(c, d, Len(d), eof, s)
                         IN IF r.k = "ev" THEN Go(c, d, eof, r.st, Append(acc, r.ev))
                            ELSE [k |-> r.k, st |-> IF r.k \in {"inc", "eos"} THEN r.at ELSE s, evs |-> acc]
Read(codec, d, s, evs) == Go([codec |-> codec, doc |-> d, cat |-> P.cat, man |-> TRUE], d, FALSE, s, evs)
\* What the text says when nothing follows (a symbol is held back until it is seen not to be an annotation)
Whole == Go([codec |-> "text", doc |-> doc, cat |-> P.cat, man |-> TRUE], doc, TRUE, text.st, text.evs)

Marker == <<224, 1, 0, 234>>

Init == /\ seq = <<>> /\ doc = <<>> /\ raw = Marker
        /\ text = [k |-> "eos", st |-> TextInit @@ [tab |-> SystemTab], evs |-> <<>>]
        /\ bin = Read("bin", Marker, BinInit @@ [tab |-> SystemTab], <<>>)

Next ==
  /\ Len(seq) < P.n
  /\ bin.k = "eos"
  /\ \E i \in DOMAIN Items :
       /\ seq' = Append(seq, i)
       /\ doc' = doc \o Items[i].t \o <<32>>
       /\ raw' = raw \o Items[i].b
       /\ text' = Read("text", doc', text.st, text.evs)
       /\ bin' = Read("bin", raw', bin.st, bin.evs)
       /\ ((Len(seq') = P.n \/ bin'.k # "eos") => PrintT("@@" \o ToJson(seq')))

Spec == Init /\ [][Next]_vars

Agree == LET w == Whole
         IN /\ w.evs = bin.evs
            /\ w.k = "eos" <=> bin.k = "eos"
            /\ w.k = "eos" => w.st.tab = bin.st.tab
Clean == \A i \in DOMAIN bin.evs : bin.evs[i].e # "ivm"
System == SubSeq(bin.st.tab, 1, 9) = SystemTab
\* Nothing is delivered by an ID that has a meaning
Resolved == \A i \in DOMAIN bin.evs :
              LET e == bin.evs[i]
                  toks == {e.f} \cup {e.a[k] : k \in DOMAIN e.a} \cup (IF e.e = "val" /\ e.t = "symbol" THEN {e.v} ELSE {})
              IN \A t \in toks : t = <<>> \/ t[1] # <<0>> \/ t[2][1] = 0 \/ t[2][1] > 9
=============================================================================
