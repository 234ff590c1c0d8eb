----------------------------- MODULE TraceDump -----------------------------
(***************************************************************************)
(* Conformance of recorded uses of dump and load.                          *)
(*                                                                         *)
(* A case starts from a Python value (from = "py": py) or from a document  *)
(* (from = "doc": codec, doc), and is a sequence of steps                  *)
(*   [o |-> "load", single, res |-> [s, xs]]  load of the current document *)
(*   [o |-> "dump", bin, stream, sexp, omit, badopt, res |-> [s, data]]    *)
(*                                            dump of the current value    *)
(* State: xs, the trees in hand or in the document in hand.               *)
(***************************************************************************)
EXTENDS IonValue, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i, j, st, verdict
vars == <<i, j, st, verdict>>

Out(v, clause, s) == [v |-> v, clause |-> clause, st |-> s]

DocTrees(c) ==        \* what the first document denotes: [k, xs]
  LET d == IF c.codec = "bytes" THEN Utf8Decode(c.doc).cps ELSE c.doc
      rc == [codec |-> c.codec, doc |-> c.doc, man |-> TRUE, cat |-> c.cat]
      n == Len(c.doc)
      RECURSIVE Go(_, _)
      Go(s, acc) == LET r == ManNext(rc, d, n, TRUE, s)
                    IN IF r.k = "ev" THEN Go(r.st, Append(acc, r.ev)) ELSE [k |-> r.k, xs |-> TreesOf(acc)]
  IN Go((IF Bin(rc) THEN BinInit ELSE TextInit) @@ [tab |-> SystemTab], <<>>)

\* After a dump the trees in hand are what was dumped; a load has to give them back.
Judge(c, s, op) ==
  IF op.res.s = "hang" THEN Out("reject", "no answer", s)
  ELSE IF op.o = "load"
  THEN LET bad == s.k # "eos" \/ (op.single /\ Len(s.xs) # 1)
           unk == \E x \in {s.xs[q] : q \in 1..Len(s.xs)} : AnyIn(x, Unknown)
       IN IF s.k = "un" \/ unk THEN Out("accept", "unspecified", s)
          ELSE IF op.res.s = "err" THEN IF bad THEN Out("accept", "rejected", s) ELSE Out("reject", "load fails", s)
          ELSE IF s.k # "eos" THEN Out("reject", "malformed input accepted", s)
          ELSE IF bad THEN Out("reject", "single value expected", s)
          ELSE IF ~SameTrees(s.xs, op.res.xs) THEN Out("reject", "other value loaded", s)
          ELSE IF \E x \in {op.res.xs[q] : q \in 1..Len(op.res.xs)} : AnyIn(x, Misclassed) THEN Out("reject", "wrong Python type", s)
          ELSE Out("run", "", [s EXCEPT !.single = op.single, !.xs = op.res.xs])
  ELSE LET root == s.xs[1]
           whole == c.from = "py" /\ j = 0        \* a Python value is in hand
           seq == op.stream /\ IF whole THEN (root.p \in {"list", "tuple"} \/ (root.p = "ion" /\ root.t \in {"list", "sexp"} /\ ~root.n)) ELSE TRUE
           bad == op.badopt \/ (whole /\ AnyIn(root, Undumpable))
           wanted == IF whole THEN IF seq THEN [q \in 1..Len(root.xs) |-> Dumped(root.xs[q], op.sexp)] ELSE <<Dumped(root, op.sexp)>>
                     \* what load returned is dumped: a list of the values, or the value
                     ELSE IF s.single
                     THEN IF op.stream /\ s.xs[1].t \in {"list", "sexp"} /\ ~s.xs[1].n THEN s.xs[1].xs ELSE s.xs
                     ELSE IF op.stream THEN s.xs ELSE <<Tree("", "list", FALSE, <<>>, <<>>, <<>>, s.xs)>>
           w == Denotes([bin |-> op.bin, cat |-> c.cat], op.res.data)
           trees == TreesOf(w.evs)
           marker == ~op.bin => IF op.omit THEN w.evs = <<>> \/ w.evs[1].e # "ivm" ELSE w.evs # <<>> /\ w.evs[1].e = "ivm"
       IN IF op.res.s = "err" THEN IF bad THEN Out("accept", "rejected", s) ELSE Out("reject", "dump fails", s)
          ELSE IF bad THEN Out("reject", "dump accepts what has no Ion type", s)
          ELSE IF w.k = "un" \/ \E q \in 1..Len(wanted) : SystemLike(wanted[q]) THEN Out("accept", "unspecified", s)
          ELSE IF w.k # "eos" THEN Out("reject", "output is not well-formed Ion", s)
          ELSE IF ~marker THEN Out("reject", "version marker", s)
          ELSE IF ~SameTrees(trees, wanted) THEN Out("reject", "other value dumped", s)
          ELSE Out("run", "", [s EXCEPT !.xs = wanted, !.k = "eos"])

Report(v, clause, k) == PrintT("@@" \o ToJson([i |-> i, v |-> v, clause |-> clause, op |-> k, why |-> ""]))

Init == /\ i \in 1..Len(Cases) /\ j = 0 /\ verdict = "run"
        /\ st = LET c == Cases[i] d == IF c.from = "py" THEN [k |-> "eos", xs |-> <<c.py>>] ELSE DocTrees(c)
                IN [k |-> d.k, xs |-> d.xs, single |-> FALSE]

Step ==
  /\ verdict = "run"
  /\ UNCHANGED i
  /\ LET c == Cases[i]
     IN IF j = Len(c.ops)
        THEN /\ UNCHANGED <<j, st>> /\ verdict' = "accept" /\ Report("accept", "conforms", j)
        ELSE LET r == Judge(c, st, c.ops[j + 1])
             IN /\ j' = j + 1 /\ st' = r.st /\ verdict' = r.v
                /\ (r.v # "run" => Report(r.v, r.clause, j + 1))

Spec == Init /\ [][Step]_vars
=============================================================================
