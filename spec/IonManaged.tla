----------------------------- MODULE IonManaged -----------------------------
(***************************************************************************)
(* The symbol-table layer over the two encodings.  The state is the raw    *)
(* state with one more field, tab: the symbol table in force.  Version     *)
(* markers and local symbol tables at the top level change it and are not  *)
(* reported; every symbol token of what is reported is resolved in it.     *)
(*                                                                         *)
(* A context C = [codec, doc (as the encoding reads it), cat, man].        *)
(***************************************************************************)
EXTENDS IonBinary, IonText, SymTab

Bin(c) == c.codec = "bin"

\* Items of the specification's document that n items of the input amount to
Received(c, n) == IF c.codec = "bytes" THEN Len(Utf8Decode(SubSeq(c.doc, 1, n)).cps) ELSE n

RawNext(c, d, n, eof, s) ==
  IF Bin(c) THEN BinNext(d, n, s) ELSE TextNext([c |-> d, n |-> Received(c, n), eof |-> eof], s)

\* Past the end of the container open at depth dep, unread
RECURSIVE RawReadTo(_, _, _, _, _, _)
RawReadTo(c, d, n, eof, s, dep) ==
  LET r == RawNext(c, d, n, eof, s)
  IN IF r.k = "ev" /\ ~(r.ev.e = "end" /\ r.ev.d = dep - 1) THEN RawReadTo(c, d, n, eof, r.st, dep)
     ELSE IF r.k = "err" /\ "st" \in DOMAIN r THEN RawReadTo(c, d, n, eof, r.st, dep)
     ELSE r
RawSkip(c, d, n, eof, s) == IF Bin(c) THEN BinSkip(d, n, s) ELSE RawReadTo(c, d, n, eof, s, Len(s.stk))

IsText(r, cps) == r.k = "ok" /\ r.tok = TextTok(cps)

\* What a malformed symbol table makes of the stream is up to the encoding's rules
InTable(r) == IF r.k = "err" THEN [k |-> "un", why |-> r.why] ELSE r

RECURSIVE LstSymbols(_, _, _, _, _, _)
LstSymbols(c, d, n, eof, s, acc) ==      \* [k, st, xs]
  LET r == RawNext(c, d, n, eof, s)
  IN IF r.k # "ev" THEN InTable(r)
     ELSE IF r.ev.e = "end" THEN [k |-> "ok", st |-> r.st, xs |-> acc]
     ELSE IF r.ev.e = "start"
     THEN LET q == RawSkip(c, d, n, eof, r.st)
          IN IF q.k # "ev" THEN InTable(q) ELSE LstSymbols(c, d, n, eof, q.st, Append(acc, <<>>))
     ELSE LstSymbols(c, d, n, eof, r.st,
                     Append(acc, IF r.ev.t = "string" THEN r.ev.v ELSE <<>>))

RECURSIVE LstImport(_, _, _, _, _, _)
LstImport(c, d, n, eof, s, desc) ==      \* desc: [n, v, m]; [k, st, desc]
  LET r == RawNext(c, d, n, eof, s)
  IN IF r.k # "ev" THEN InTable(r)
     ELSE IF r.ev.e = "end" THEN [k |-> "ok", st |-> r.st, desc |-> desc]
     ELSE IF r.ev.e = "start"
     THEN LET q == RawSkip(c, d, n, eof, r.st)
          IN IF q.k # "ev" THEN InTable(q) ELSE LstImport(c, d, n, eof, q.st, desc)
     ELSE LET f == Resolve(s.tab, r.ev.f)
              num(def, low) == IF r.ev.v = <<>> THEN def
                               ELSE LET x == DigitsVal(r.ev.v[2]) y == IF r.ev.v[1] = <<1>> THEN -x ELSE x
                                    IN IF y < low THEN def ELSE y
          IN IF f.k # "ok" THEN Err("symbol ID out of range")
             ELSE LstImport(c, d, n, eof, r.st,
                    IF IsText(f, T_name) /\ r.ev.t = "string" THEN [desc EXCEPT !.n = r.ev.v]
                    ELSE IF IsText(f, T_version) /\ r.ev.t = "int" THEN [desc EXCEPT !.v = num(1, 1)]
                    ELSE IF IsText(f, T_max_id) /\ r.ev.t = "int" THEN [desc EXCEPT !.m = num(-1, 0)]
                    ELSE desc)

RECURSIVE LstImports(_, _, _, _, _, _)
LstImports(c, d, n, eof, s, acc) ==      \* acc: the entries imported; [k, st, tab]
  LET r == RawNext(c, d, n, eof, s)
  IN IF r.k # "ev" THEN InTable(r)
     ELSE IF r.ev.e = "end" THEN [k |-> "ok", st |-> r.st, tab |-> acc]
     ELSE IF r.ev.e = "start" /\ r.ev.t = "struct"
     THEN LET q == LstImport(c, d, n, eof, r.st, [n |-> <<>>, v |-> 1, m |-> -1])
          IN IF q.k # "ok" THEN q
             ELSE IF q.desc.n \in {<<>>, << <<>> >>, <<T_ion>>} THEN LstImports(c, d, n, eof, q.st, acc)
             ELSE LET t == CatResolve(c.cat, q.desc.n[1], q.desc.v, q.desc.m)
                  IN IF t.k # "ok" THEN Err("import without a match")
                     ELSE LstImports(c, d, n, eof, q.st, acc \o SharedTab(q.desc.n[1], t.xs))
     ELSE IF r.ev.e = "start"
     THEN LET q == RawSkip(c, d, n, eof, r.st)
          IN IF q.k # "ev" THEN InTable(q) ELSE LstImports(c, d, n, eof, q.st, acc)
     ELSE LstImports(c, d, n, eof, r.st, acc)

\* The fields of a local symbol table; g = [imp, sym, seen]; [k, st, tab]
RECURSIVE LstFields(_, _, _, _, _, _)
LstFields(c, d, n, eof, s, g) ==
  LET r == RawNext(c, d, n, eof, s)
      f == Resolve(s.tab, r.ev.f)
      name == IF f.k # "ok" THEN "?" ELSE IF IsText(f, T_symbols) THEN "symbols" ELSE IF IsText(f, T_imports) THEN "imports" ELSE ""
      h == IF name = "" THEN g ELSE [g EXCEPT !.seen = @ \cup {name}]
  IN IF r.k # "ev" THEN InTable(r)
     ELSE IF r.ev.e = "end"
     THEN [k |-> "ok", st |-> r.st,
           tab |-> SystemTab \o g.imp \o [i \in 1..Len(g.sym) |-> Entry(g.sym[i], <<>>)]]
     ELSE IF name = "?" THEN Err("symbol ID out of range")
     ELSE IF name \in g.seen THEN Err("repeated field in a symbol table")
     ELSE IF r.ev.e = "start" /\ r.ev.t = "list" /\ name = "symbols"
     THEN LET q == LstSymbols(c, d, n, eof, r.st, <<>>)
          IN IF q.k # "ok" THEN q ELSE LstFields(c, d, n, eof, q.st, [h EXCEPT !.sym = q.xs])
     ELSE IF r.ev.e = "start" /\ r.ev.t = "list" /\ name = "imports"
     THEN LET q == LstImports(c, d, n, eof, r.st, <<>>)
          IN IF q.k # "ok" THEN q ELSE LstFields(c, d, n, eof, q.st, [h EXCEPT !.imp = q.tab])
     ELSE IF r.ev.e = "start"
     THEN LET q == RawSkip(c, d, n, eof, r.st)
          IN IF q.k # "ev" THEN InTable(q) ELSE LstFields(c, d, n, eof, q.st, h)
     ELSE IF r.ev.t = "symbol" /\ name = "imports" /\ r.ev.v # <<>>
     THEN LET v == Resolve(s.tab, r.ev.v)
          IN IF v.k # "ok" THEN Err("symbol ID out of range")
             ELSE LstFields(c, d, n, eof, r.st,
                    IF IsText(v, T_symbol_table) THEN [h EXCEPT !.imp = SubSeq(s.tab, 10, Len(s.tab))] ELSE h)
     ELSE LstFields(c, d, n, eof, r.st, h)

\* An event with its tokens resolved; a symbol ID that the table does not have is an
\* error when it is looked at, after which reading could go on.
Deliver(tab, r) ==
  LET ev == r.ev
      f == IF ev.f = <<>> THEN [k |-> "ok", tok |-> <<>>] ELSE Resolve(tab, ev.f)
      a == [i \in 1..Len(ev.a) |-> Resolve(tab, ev.a[i])]
      v == IF ev.e = "val" /\ ev.t = "symbol" /\ ev.v # <<>> THEN Resolve(tab, ev.v) ELSE [k |-> "ok", tok |-> ev.v]
  IN IF f.k # "ok" \/ v.k # "ok" \/ \E i \in 1..Len(a) : a[i].k # "ok"
     THEN [k |-> "err", why |-> "symbol ID out of range", st |-> r.st]
     ELSE [k |-> "ev", ev |-> [ev EXCEPT !.f = f.tok, !.v = v.tok, !.a = [i \in 1..Len(a) |-> a[i].tok]], st |-> r.st]

\* As RawNext.  What is not an event carries the field at: the state after the system
\* values that were consumed on the way.
RECURSIVE ManNext(_, _, _, _, _)
ManNext(c, d, n, eof, s) ==
  LET r == RawNext(c, d, n, eof, s)
      ev == r.ev
      sym == Resolve(s.tab, ev.v)
      ann == Resolve(s.tab, ev.a[1])
  IN IF r.k # "ev" THEN r @@ [at |-> s]
     ELSE IF s.stk # <<>> THEN Deliver(s.tab, r)
     ELSE IF ev.e = "ivm" THEN ManNext(c, d, n, eof, [r.st EXCEPT !.tab = SystemTab])
     ELSE IF ev.e = "val" /\ ev.t = "symbol" /\ ev.a = <<>> /\ ev.v # <<>> /\ IsText(sym, T_ion_1_0)
     THEN ManNext(c, d, n, eof, r.st)
     ELSE IF ev.e = "start" /\ ev.t = "struct" /\ ev.a # <<>> /\ IsText(ann, T_symbol_table)
     THEN LET q == LstFields(c, d, n, eof, r.st, [imp |-> <<>>, sym |-> <<>>, seen |-> {}])
          IN IF q.k # "ok" THEN q @@ [at |-> s]
             ELSE ManNext(c, d, n, eof, [q.st EXCEPT !.tab = q.tab])
     ELSE Deliver(s.tab, r)
=============================================================================
