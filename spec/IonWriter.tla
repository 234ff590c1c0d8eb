------------------------------ MODULE IonWriter ------------------------------
(***************************************************************************)
(* The writers.  A writer is given events, one at a time, and answers each *)
(* with pieces of output: "pend" (ask again with nothing), and then "need" *)
(* or "comp" (all that was written so far has been put out).               *)
(*                                                                         *)
(* What it puts out is specified by what it decodes to: state component    *)
(* exp holds the events that the output since the last start (of the       *)
(* segment, in binary; of everything, in text) has to denote.              *)
(*                                                                         *)
(* A context is [bin, imports (sequence of shared tables [n, v, s]),       *)
(* badimp (one of them is not a shared table), cat].                       *)
(***************************************************************************)
EXTENDS IonManaged

IVM == <<224, 1, 0, 234>>

Fixed(c) == SystemTab \o FoldLeft(LAMBDA acc, t : acc \o SharedTab(t.n, t.s), <<>>, c.imports)

WInit == [stk |-> <<>>,     \* types of the open containers
          last |-> "none",  \* the last answer
          cur |-> SigEv("none"),     \* the event being answered
          out |-> <<>>, exp |-> <<>>,
          vals |-> FALSE,   \* a value has been begun since the last flush
          un |-> FALSE,     \* something whose meaning is not specified has been written
          dead |-> FALSE]   \* it has raised

\* Is the event one of a description of Ion values?  ev.bad: the value is not of the type.
LegalEvent(c, s, ev) ==
  LET d == Len(s.stk)
      named == d > 0 /\ s.stk[d] = "struct" => ev.f # <<>>
      shared == ~(c.bin /\ c.badimp)
  IN CASE ev.e = "val" -> ev.t \in IonType /\ ~ev.bad /\ named /\ shared
       [] ev.e = "start" -> ev.t \in Containers /\ ~ev.bad /\ named /\ shared
       [] ev.e = "end" -> d > 0
       [] ev.e = "eos" -> d = 0
       [] ev.e = "ivm" -> d = 0 /\ ~(c.bin /\ s.vals)
       [] OTHER -> FALSE

\* What a token will be read as: [tok, un]
Written(c, tok) ==
  IF tok = <<>> \/ tok[1] = <<1>> \/ ~c.bin THEN [tok |-> tok, un |-> FALSE]
  ELSE IF tok[1] = <<2>> THEN [tok |-> tok, un |-> TRUE]
  ELSE LET r == Lookup(Fixed(c), tok[2][1]) IN IF r.k = "ok" THEN [tok |-> r.tok, un |-> FALSE] ELSE [tok |-> tok, un |-> TRUE]

Tokens(ev) == {ev.f} \cup {ev.a[i] : i \in 1..Len(ev.a)} \cup (IF ev.e = "val" /\ ev.t = "symbol" THEN {ev.v} ELSE {})

\* The event that has to be read back
Expected(c, s, ev) ==
  LET d == Len(s.stk)
      inStruct == d > 0 /\ s.stk[d] = "struct"
      T(tok) == Written(c, tok).tok
  IN CASE ev.e = "end" -> Ev("end", s.stk[d], <<>>, <<>>, <<>>, d - 1)
       [] ev.e = "ivm" -> Ev("ivm", "", <<<<1, 0>>>>, <<>>, <<>>, 0)
       [] OTHER -> Ev(ev.e, ev.t, IF ev.t = "symbol" THEN T(ev.v) ELSE ev.v,
                      IF inStruct THEN T(ev.f) ELSE <<>>, [i \in 1..Len(ev.a) |-> T(ev.a[i])], d)

Apply(c, s, ev) ==
  LET d == Len(s.stk)
      s1 == IF ev.e = "eos" \/ (c.bin /\ ev.e = "ivm") THEN s ELSE [s EXCEPT !.exp = Append(@, Expected(c, s, ev))]
  IN CASE ev.e = "start" -> [s1 EXCEPT !.stk = Append(@, ev.t), !.vals = TRUE]
       [] ev.e = "end" -> [s1 EXCEPT !.stk = SubSeq(@, 1, d - 1)]
       [] ev.e = "val" -> [s1 EXCEPT !.vals = TRUE]
       [] OTHER -> s1

\* The signal that ends the answer to an event, given the state after it
Final(c, s, ev) == IF ev.e = "eos" \/ (~c.bin /\ s.stk = <<>>) THEN "comp" ELSE "need"

ValueEq(w, o) ==        \* w: what the output denotes, o: what was written
  IF w.t = "float" /\ Len(w.v) = 3 THEN o.t = "float" /\ Len(o.v) = 1 /\ NearestDouble(w.v[1][1], w.v[3], w.v[2][1], o.v[1])
  ELSE w.t = o.t /\ w.v = o.v
SameEvent(w, o) == w.e = o.e /\ w.d = o.d /\ w.f = o.f /\ w.a = o.a /\ ValueEq(w, o)
SameEvents(ws, os) == Len(ws) = Len(os) /\ \A i \in 1..Len(ws) : SameEvent(ws[i], os[i])

\* What output denotes: [k, evs, why]
Denotes(c, out) ==
  LET rc == [codec |-> IF c.bin THEN "bin" ELSE "text", doc |-> out, man |-> c.bin, cat |-> c.cat]
      n == Len(out)
      RECURSIVE Go(_, _)
      Go(s, acc) == LET r == IF c.bin THEN ManNext(rc, out, n, TRUE, s) ELSE RawNext(rc, out, n, TRUE, s)
                    IN IF r.k = "ev" THEN Go(r.st, Append(acc, r.ev)) ELSE [k |-> r.k, evs |-> acc, why |-> r.why]
  IN Go((IF c.bin THEN BinInit ELSE TextInit) @@ [tab |-> SystemTab], <<>>)

\* Does the output hold what was written?  "" or what is wrong.
Faithful(c, s) ==
  IF s.un THEN ""
  ELSE IF c.bin /\ ~s.vals THEN IF s.out \in {<<>>, IVM} THEN "" ELSE "output without values"
  ELSE LET w == Denotes(c, s.out)
       IN IF w.k = "un" THEN ""
          ELSE IF w.k # "eos" THEN "output is not well-formed Ion"
          ELSE IF ~SameEvents(w.evs, s.exp) THEN "output denotes other values"
          ELSE ""

(***************************************************************************)
(* One request and its answer, op = [o, ev, r, evs], as TraceWrite has it *)
(***************************************************************************)
WriteOut(v, clause, s) == [v |-> v, clause |-> clause, st |-> s]

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

WriteJudge(c, s, op) ==
  IF op.o = "back"
  THEN IF s.un \/ s.dead \/ SameEvents(op.evs, s.exp) THEN WriteOut("run", "", s) ELSE WriteOut("reject", "library reads other values", s)
  ELSE
  LET misuse == IF s.last = "pend" THEN op.o # "take" ELSE op.o # "ev"
      ev == IF s.last = "pend" THEN s.cur ELSE op.ev
      \* binary: a new segment starts with the first event after a flush
      s0 == IF c.bin /\ s.last = "comp" /\ op.o = "ev" THEN [s EXCEPT !.out = <<>>, !.exp = <<>>, !.vals = FALSE, !.un = FALSE] ELSE s
      ok == LegalEvent(c, s0, ev)
      un == s0.un \/ (ok /\ ev.e \in {"val", "start"} /\ \E tok \in Tokens(ev) : Written(c, tok).un)
      s1 == [s0 EXCEPT !.out = @ \o op.r.data, !.cur = ev, !.last = op.r.s, !.un = un]
      s2 == Apply(c, s1, ev)
      bad == IF op.r.s = "comp" THEN Faithful(c, s2) ELSE ""
  IN IF s.dead THEN IF op.r.s = "err" THEN WriteOut("run", "", s) ELSE WriteOut("reject", "answer after a failure", s)
     ELSE IF misuse THEN IF op.r.s = "err" THEN WriteOut("run", "", [s EXCEPT !.dead = TRUE]) ELSE WriteOut("reject", "protocol misuse accepted", s)
     ELSE IF op.r.s = "err"
     THEN IF ok /\ ~un THEN WriteOut("reject", "valid event rejected", s) ELSE WriteOut("run", "", [s EXCEPT !.dead = TRUE])
     ELSE IF op.r.s = "hang" THEN WriteOut("reject", "no answer", s)
     ELSE IF c.bin /\ ev.e # "eos" /\ ~IsPrefixOf(s1.out, IVM) THEN WriteOut("reject", "output before the flush", s)
     ELSE IF op.r.s = "pend" THEN WriteOut("run", "", s1)
     ELSE IF ~ok THEN WriteOut("reject", "invalid event accepted", s)
     ELSE IF op.r.s # Final(c, s2, ev) THEN WriteOut("reject", "wrong signal", s)
     ELSE IF bad # "" THEN WriteOut("reject", bad, s)
     ELSE WriteOut("run", "", s2)

=============================================================================
