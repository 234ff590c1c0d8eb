----------------------------- MODULE IonReader -----------------------------
(***************************************************************************)
(* A reader, raw or managed, as its user sees it: which requests it takes, *)
(* and how it serves them given what it has received.                      *)
(*                                                                         *)
(* m is [n, eof, last, pend, bad]: items received, told that no more       *)
(* follow, last answer, the request being served, the rule that the        *)
(* document broke.                                                         *)
(***************************************************************************)
EXTENDS IonManaged

Next1(c, d, n, eof, s) == IF c.man THEN ManNext(c, d, n, eof, s) ELSE RawNext(c, d, n, eof, s)

\* Reads on to the end of the container that is open at depth dep
RECURSIVE ReadTo(_, _, _, _, _, _, _)
ReadTo(c, d, n, eof, s, dep, strict) ==
  LET r == Next1(c, d, n, eof, s)
  IN IF r.k = "ev" /\ ~(r.ev.e = "end" /\ r.ev.d = dep - 1) THEN ReadTo(c, d, n, eof, r.st, dep, strict)
     \* a value that nobody looks at may be malformed in itself
     ELSE IF ~strict /\ r.k = "err" /\ "st" \in DOMAIN r THEN ReadTo(c, d, n, eof, r.st, dep, strict)
     ELSE r

Serve(c, d, n, eof, s, pend) ==
  IF pend = "next" THEN Next1(c, d, n, eof, s)
  ELSE IF Bin(c) THEN BinSkip(d, n, s)
  ELSE ReadTo(c, d, n, eof, s, Len(s.stk), FALSE)

\* With the whole document there (or all that was received, when told that nothing
\* follows), is what comes next (or what follows that) malformed?
Whole(c, d, mm, s, pend) ==
  LET N == IF mm.eof THEN mm.n ELSE Len(c.doc)
      r == IF pend = "next" THEN Next1(c, d, N, TRUE, s) ELSE ReadTo(c, d, N, TRUE, s, Len(s.stk), TRUE)
  IN r
RECURSIVE LastOf(_, _, _, _)
LastOf(c, d, n, s) == LET r == Next1(c, d, n, TRUE, s) IN IF r.k = "ev" THEN LastOf(c, d, n, r.st) ELSE r.k
Doomed(c, d, mm, s, pend) ==
  LET r == Whole(c, d, mm, s, pend)
  IN \/ r.k \in {"err", "un"}
     \/ /\ ~Bin(c) /\ r.k = "ev"
        /\ Next1(c, d, IF mm.eof THEN mm.n ELSE Len(c.doc), TRUE, r.st).k \in {"err", "un"}
     \* no more follows, and what is there is not well-formed
     \/ ~Bin(c) /\ mm.eof /\ r.k = "ev" /\ LastOf(c, d, mm.n, r.st) \in {"err", "un"}

\* A float literal of the text encoding denotes the double nearest to it.
ValueMatch(s, o) ==
  IF s.t = "float" /\ Len(s.v) = 3
  THEN o.t = "float" /\ Len(o.v) = 1 /\ NearestDouble(s.v[1][1], s.v[3], s.v[2][1], o.v[1])
  ELSE s.t = o.t /\ s.v = o.v
EvMatch(s, o) == s.e = o.e /\ s.f = o.f /\ s.a = o.a /\ s.d = o.d /\ ValueMatch(s, o)

Differs(s, o) == IF s.e # o.e THEN "event kind" ELSE IF s.d # o.d THEN "depth"
                 ELSE IF s.t # o.t THEN "type" ELSE IF s.f # o.f THEN "field name"
                 ELSE IF s.a # o.a THEN "annotations" ELSE "value"

\* An operator character after a symbol or keyword may end it at once, though what
\* follows the operator decides whether that is well-formed.
Early(c, d, s, mm, o) ==
  /\ ~Bin(c)
  /\ \/ LET k == Received(c, mm.n) IN k > 0 /\ d[k] \in OpChar
     \* part of the character that follows is there
     \/ c.codec = "bytes" /\ Utf8Decode(SubSeq(c.doc, 1, mm.n)).rest > 0
  /\ LET r == Whole(c, d, mm, s, mm.pend) IN r.k = "ev" /\ EvMatch(r.ev, o)

EarlyDoomed(c, d, s, mm) ==
  /\ ~Bin(c)
  /\ LET k == Received(c, mm.n) IN k > 0 /\ d[k] \in OpChar
  /\ Whole(c, d, mm, s, mm.pend).k \in {"err", "un"}

\* The requests the protocol allows
Legal(c, s, mm, o) ==
  CASE mm.last = "none" -> o = "next"
    [] mm.last \in {"ev", "start"} -> o = "next" \/ (o = "skip" /\ Len(s.stk) > 0)
    [] mm.last = "inc" -> o = "data" \/ (o = "next" /\ ~Bin(c))
    [] OTHER -> o = "data"

Signals == {"inc", "eos"}

(***************************************************************************)
(* One request and its answer, op = [o, k, r]: [v |-> "run", "accept" (no  *)
(* more to be said) or "reject", clause, st, m]                            *)
(***************************************************************************)
ReadOut(v, clause, s, mm) == [v |-> v, clause |-> clause, st |-> s, m |-> mm]

ReadJudge(c, d, s, mm, op) ==
  LET o == op.r
      flush == op.o = "next" /\ mm.last = "inc"
      \* data after a flush starts anew
      s0 == IF op.o = "data" /\ mm.eof /\ ~Bin(c) /\ ~c.block THEN [s EXCEPT !.pos = Received(c, mm.n)] ELSE s
      m1 == [mm EXCEPT !.n = @ + op.k,
                       !.eof = IF op.o = "data" THEN FALSE ELSE @ \/ flush,
                       !.pend = IF op.o = "skip" THEN "skip" ELSE IF op.o = "next" /\ ~flush THEN "next" ELSE @]
      m2 == [m1 EXCEPT !.last = IF o.e \in Signals THEN o.e ELSE IF o.e = "start" THEN "start" ELSE "ev"]
      r0 == Serve(c, d, m1.n, m1.eof, s0, m1.pend)
      \* a reader that fetches its own input has it all: what is missing never comes
      r == IF c.block /\ r0.k = "inc" THEN Err("truncated") ELSE r0
      X == [c |-> d, n |-> Received(c, m1.n), eof |-> FALSE]
      s1 == IF m1.pend = "next" /\ "at" \in DOMAIN r THEN r.at ELSE s0
      blank == ~Bin(c) /\ Len(s1.stk) = 0 /\ Blank(X, s1.pos + 1)
  IN IF ~Legal(c, s, mm, op.o)
     THEN IF o.e = "err" THEN ReadOut("accept", "misuse rejected", s, mm) ELSE ReadOut("reject", "protocol misuse accepted", s, mm)
     ELSE IF mm.bad # ""
     THEN IF o.e = "err" THEN ReadOut("accept", "malformed rejected", s, m2)
          ELSE IF o.e \notin Signals THEN ReadOut("reject", "malformed input reported", s, m2)
          ELSE ReadOut("run", "", s, m2)
     ELSE CASE o.e = "hang" -> ReadOut("reject", "no answer", s, m2)
            [] r.k = "un" -> ReadOut("accept", "unspecified", s, m2)
            [] r.k = "err" -> IF o.e = "err" THEN ReadOut("accept", "malformed rejected", s, m2)
                              ELSE IF o.e \notin Signals THEN ReadOut("reject", "malformed input reported", s, [m2 EXCEPT !.bad = r.why])
                              ELSE ReadOut("run", "", s, [m2 EXCEPT !.bad = r.why])
            [] o.e = "err" -> IF Doomed(c, d, m1, s0, m1.pend) THEN ReadOut("accept", "malformed rejected", s, m2)
                              ELSE ReadOut("reject", "valid input rejected", s, m2)
            [] r.k = "ev" -> IF o.e \in Signals THEN ReadOut("reject", "complete value not reported", s, m2)
                             ELSE IF EvMatch(r.ev, o)
                             THEN ReadOut("run", "", r.st, [m2 EXCEPT !.pend = "next"])
                             ELSE ReadOut("reject", "wrong event: " \o Differs(r.ev, o), s, m2)
            [] r.k = "inc" /\ o.e \notin Signals /\ Early(c, d, s0, m1, o) ->
                 ReadOut("run", "", Whole(c, d, m1, s0, m1.pend).st, [m2 EXCEPT !.pend = "next"])
            [] r.k = "inc" /\ o.e = "val" /\ EarlyDoomed(c, d, s0, m1) ->
                 LET w == Whole(c, d, m1, s0, m1.pend)
                 IN IF w.k = "un" THEN ReadOut("accept", "unspecified", s, m2) ELSE ReadOut("run", "", s, [m2 EXCEPT !.bad = w.why])
            [] r.k = "inc" -> IF o.e = "inc" \/ (o.e = "eos" /\ blank) THEN ReadOut("run", "", s1, m2)
                              ELSE ReadOut("reject", IF o.e = "eos" THEN "stream end inside a value" ELSE "event before its data", s, m2)
            [] OTHER -> IF o.e = "eos" THEN ReadOut("run", "", s1, m2)
                        ELSE ReadOut("reject", IF o.e = "inc" THEN "incomplete though nothing is pending" ELSE "event after the end", s, m2)

=============================================================================
