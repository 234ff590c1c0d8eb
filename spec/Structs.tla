-------------------------------- MODULE Structs --------------------------------
(***************************************************************************)
(* Multimaps, the Python form of structs.                                  *)
(*                                                                         *)
(* An object is a sequence of <<name, value>> pairs in order of addition.  *)
(* The state is a sequence of objects; a request q = [op, o, ...] works on *)
(* object q.o.  Apply gives the new state and the answer [k, v]: k is "ok" *)
(* or "key" (the name is not there), v a sequence.  The order in which     *)
(* different names are listed is free.                                     *)
(***************************************************************************)
EXTENDS IonBase

ValuesOf(m, n) == LET s == SelectSeq(m, LAMBDA p : p[1] = n) IN [i \in 1..Len(s) |-> s[i][2]]
NamesOf(m) == {m[i][1] : i \in 1..Len(m)}
Without(m, n) == SelectSeq(m, LAMBDA p : p[1] # n)
LastOf(m, n) == LET vs == ValuesOf(m, n) IN vs[Len(vs)]
Put(m, n, x) == Append(Without(m, n), <<n, x>>)
\* A dict of the pairs: the last one of each name
RECURSIVE DictOf(_)
DictOf(ps) == IF ps = <<>> THEN <<>>
              ELSE LET rest == SubSeq(ps, 1, Len(ps) - 1) last == ps[Len(ps)] IN Put(DictOf(rest), last[1], last[2])

\* A list after a request [how, at (from 0), x] on it: [k, s, v]
InsertedAt(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
OnList(s, e) ==
  LET n == Len(s)
  IN CASE e.how = "append" -> [k |-> "ok", s |-> Append(s, e.x), v |-> <<>>]
       [] e.how = "insert" -> [k |-> "ok", s |-> InsertedAt(s, Min2(e.at, n), e.x), v |-> <<>>]
       [] e.how = "set" -> IF e.at < n THEN [k |-> "ok", s |-> [s EXCEPT ![e.at + 1] = e.x], v |-> <<>>] ELSE [k |-> "err", s |-> s, v |-> <<>>]
       [] e.how = "del" -> IF e.at < n THEN [k |-> "ok", s |-> SubSeq(s, 1, e.at) \o SubSeq(s, e.at + 2, n), v |-> <<>>] ELSE [k |-> "err", s |-> s, v |-> <<>>]
       [] e.how = "get" -> IF e.at < n THEN [k |-> "ok", s |-> s, v |-> <<s[e.at + 1]>>] ELSE [k |-> "err", s |-> s, v |-> <<>>]
       [] OTHER -> [k |-> "err", s |-> s, v |-> <<>>]
\* What a sequence of such requests leaves, and the answers, one after another
ListRun(s, es) == FoldLeft(LAMBDA acc, e : LET r == OnList(acc[1], e) IN <<r.s, Append(acc[2], [k |-> r.k, v |-> r.v])>>, <<s, <<>>>>, es)

Answer(k, v) == [k |-> k, v |-> v]
Apply(st, q) ==
  LET made == q.op \in {"new", "copy", "deepcopy", "pickle", "from"}
      m == IF made /\ q.op = "new" THEN <<>> ELSE st[q.o]
      has == \E i \in 1..Len(m) : m[i][1] = q.n
      Make(x) == [st |-> Append(st, x), r |-> Answer("ok", <<>>)]
      Set(x, r) == [st |-> [st EXCEPT ![q.o] = x], r |-> r]
      Same(r) == [st |-> st, r |-> r]
      Missing == Same(Answer("key", <<>>))
  IN CASE q.op = "new" -> Make(DictOf(q.ps))
       [] q.op \in {"copy", "deepcopy", "pickle", "from"} -> Make(m)
       [] q.op = "add" -> Set(Append(m, <<q.n, q.x>>), Answer("ok", <<>>))
       [] q.op = "set" -> Set(Put(m, q.n, q.x), Answer("ok", <<>>))
       [] q.op = "del" -> IF has THEN Set(Without(m, q.n), Answer("ok", <<>>)) ELSE Missing
       [] q.op = "clear" -> Set(<<>>, Answer("ok", <<>>))
       [] q.op = "pop" -> IF has THEN Set(Without(m, q.n), Answer("ok", <<LastOf(m, q.n)>>)) ELSE Missing
       [] q.op = "popd" -> IF has THEN Set(Without(m, q.n), Answer("ok", <<LastOf(m, q.n)>>)) ELSE Same(Answer("ok", <<q.x>>))
       [] q.op = "setdefault" -> IF has THEN Same(Answer("ok", <<LastOf(m, q.n)>>)) ELSE Set(Put(m, q.n, q.x), Answer("ok", <<q.x>>))
       [] q.op = "get" -> IF has THEN Same(Answer("ok", <<LastOf(m, q.n)>>)) ELSE Missing
       [] q.op = "getd" -> IF has THEN Same(Answer("ok", <<LastOf(m, q.n)>>)) ELSE Same(Answer("ok", <<q.x>>))
       [] q.op = "has" -> Same(Answer("ok", <<has>>))
       [] q.op = "all" -> IF has THEN Same(Answer("ok", ValuesOf(m, q.n))) ELSE Missing
       [] q.op = "len" -> Same(Answer("ok", <<Len(m)>>))
       [] q.op = "true" -> Same(Answer("ok", <<m # <<>>>>))
       [] q.op = "names" -> Same(Answer("ok", SetToSeq(NamesOf(m))))
       [] q.op \in {"items", "iteritems"} -> Same(Answer("ok", m))
       [] q.op = "list" -> IF has THEN Same(Answer("ok", ListRun(ValuesOf(m, q.n), q.es))) ELSE Missing

SamePairs(a, b) == Len(a) = Len(b) /\ \A n \in NamesOf(a) \cup NamesOf(b) : ValuesOf(a, n) = ValuesOf(b, n)
\* Is the answer r one that the answer w allows?
Allowed(q, w, r) ==
  /\ r.k = w.k
  /\ CASE q.op \in {"items", "iteritems"} -> SamePairs(r.v, w.v)
       [] q.op = "names" -> Len(r.v) = Len(w.v) /\ {r.v[i] : i \in 1..Len(r.v)} = {w.v[i] : i \in 1..Len(w.v)}
       [] OTHER -> r.v = w.v
=============================================================================
