------------------------------- MODULE MCProtocol -------------------------------
(***************************************************************************)
(* All histories of at most N requests to a reader of some documents.      *)
(* What the protocol forbids ends a history.                               *)
(***************************************************************************)
EXTENDS IonReader, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
Docs == P.docs         \* [codec, doc, man, cat, block]
Requests == {"next", "skip", "data", "one", "empty", "foreign"}

VARIABLES c,           \* the document
          st, m,       \* the reader
          evs,         \* what it has reported
          hist,        \* the requests
          skipped, cut, dead
vars == <<c, st, m, evs, hist, skipped, cut, dead>>

D == Docs[c]
Text == IF D.codec = "bytes" THEN Utf8Decode(D.doc).cps ELSE D.doc

Init == /\ c \in DOMAIN Docs
        /\ st = (IF Bin(Docs[c]) THEN BinInit ELSE TextInit) @@ [tab |-> SystemTab]
        /\ m = [n |-> 0, eof |-> FALSE, last |-> "none", pend |-> "next", bad |-> ""]
        /\ evs = <<>> /\ hist = <<>> /\ skipped = FALSE /\ cut = FALSE /\ dead = FALSE

Refuse == dead' = TRUE /\ UNCHANGED <<st, m, evs, skipped, cut>>

\* k more items, and the answers there may be
Answer(o, k) ==
  LET flush == o = "next" /\ m.last = "inc"
      s0 == IF o = "data" /\ m.eof /\ ~Bin(D) THEN [st EXCEPT !.pos = Received(D, m.n)] ELSE st
      m1 == [m EXCEPT !.n = @ + k, !.eof = IF o = "data" THEN FALSE ELSE @ \/ flush,
                      !.pend = IF o = "skip" THEN "skip" ELSE IF o = "next" /\ ~flush THEN "next" ELSE @]
      r == Serve(D, Text, m1.n, m1.eof, s0, m1.pend)
      X == [c |-> Text, n |-> Received(D, m1.n), eof |-> FALSE]
      s1 == IF m1.pend = "next" /\ "at" \in DOMAIN r THEN r.at ELSE s0
      blank == ~Bin(D) /\ Len(s1.stk) = 0 /\ Blank(X, s1.pos + 1)
      signal(e) == st' = s1 /\ m' = [m1 EXCEPT !.last = e] /\ UNCHANGED <<evs, dead>>
  IN /\ skipped' = (skipped \/ o = "skip")
     /\ cut' = (cut \/ (flush /\ m.n < Len(D.doc)))
     /\ CASE r.k = "ev" -> /\ st' = r.st /\ evs' = Append(evs, r.ev) /\ UNCHANGED dead
                           /\ m' = [m1 EXCEPT !.last = IF r.ev.e = "start" THEN "start" ELSE "ev", !.pend = "next"]
          [] r.k = "inc" -> signal("inc") \/ (blank /\ signal("eos"))
          [] r.k = "eos" -> signal("eos")
          [] OTHER -> st' = st /\ m' = m1 /\ evs' = evs /\ dead' = TRUE

Ask(o) ==
  /\ hist' = Append(hist, o)
  /\ LET q == IF o = "one" THEN "data" ELSE o
         k == IF o = "one" THEN 1 ELSE IF o = "data" THEN Len(D.doc) - m.n ELSE 0
     IN IF Legal(D, st, m, q) THEN Answer(q, k) ELSE Refuse

Next ==
  /\ ~dead
  /\ Len(hist) < P.n
  /\ UNCHANGED c
  /\ \E o \in Requests :
       /\ (o \in {"data", "one"} => m.n < Len(D.doc))
       /\ (o = "one" => Len(D.doc) - m.n > 1)
       /\ Ask(o)
       /\ ((dead' \/ Len(hist') = P.n) => PrintT("@@" \o ToJson(<<c, hist'>>)))

Spec == Init /\ [][Next]_vars

RECURSIVE All(_, _)
All(s, acc) == LET r == Next1(D, Text, Len(D.doc), TRUE, s) IN IF r.k = "ev" THEN All(r.st, Append(acc, r.ev)) ELSE acc
Everything == All((IF Bin(D) THEN BinInit ELSE TextInit) @@ [tab |-> SystemTab], <<>>)

RECURSIVE SubsequenceOf(_, _)
SubsequenceOf(a, b) == a = <<>> \/ (b # <<>> /\ (IF Head(a) = Head(b) THEN SubsequenceOf(Tail(a), Tail(b)) ELSE SubsequenceOf(a, Tail(b))))

\* Nothing is invented or reordered, and nothing is left out but by SKIP, however requests and data come
\* (a value that was cut off by an early end of the data is another value)
Faithful == LET w == Everything
            IN ~cut =>
                 IF skipped THEN SubsequenceOf(evs, w) ELSE Len(evs) <= Len(w) /\ evs = SubSeq(w, 1, Len(evs))
\* When the reader says that the stream ends, all has been reported
Complete == m.last = "eos" /\ ~dead /\ ~skipped /\ ~cut /\ m.n = Len(D.doc) => evs = Everything
\* A reader waits for data exactly when it has signalled so
Waits == m.last \in {"inc", "eos"} <=> (Legal(D, st, m, "data") /\ ~(m.last = "none"))
=============================================================================
