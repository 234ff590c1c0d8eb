-------------------------------- MODULE Buffer --------------------------------
(***************************************************************************)
(* The input buffer.  The state is [q, pos, last]: q what has been fed and *)
(* not been consumed (bytes or code points, EOF for a marked end), pos how *)
(* many units have been consumed, last the units consumed most recently,   *)
(* newest last, as far as they can be known to be (unreading takes away).  *)
(* A request is [op, d, n]; the answer [k, v, len, pos].                   *)
(***************************************************************************)
EXTENDS IonBase

EOF == 0 - 1
Empty == [q |-> <<>>, pos |-> 0, last |-> <<>>]

Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
Consume(s, n) == [q |-> Drop(s.q, n), pos |-> s.pos + n, last |-> s.last \o Take(s.q, n)]
Ok(s, v) == [k |-> "ok", v |-> v, s |-> s]
Refuse(s) == [k |-> "err", v |-> <<>>, s |-> s]

\* The outcomes the request may have
Outcomes(s, r) ==
  CASE r.op = "extend" -> {Ok([s EXCEPT !.q = @ \o r.d], <<>>)}
    [] r.op = "wrong" -> {Refuse(s)}                       \* data of the other kind
    [] r.op = "eof" -> {Ok([s EXCEPT !.q = Append(@, EOF)], <<>>)}
    [] r.op = "read" -> IF r.n > Len(s.q) THEN {Refuse(s)} ELSE {Ok(Consume(s, r.n), Take(s.q, r.n))}
    [] r.op = "byte" -> IF s.q = <<>> THEN {Refuse(s)} ELSE {Ok(Consume(s, 1), Take(s.q, 1))}
    [] r.op = "skip" -> LET n == Min2(r.n, Len(s.q)) IN {Ok(Consume(s, n), <<r.n - n>>)}
    [] r.op = "rest" -> {Ok(Consume(s, Len(s.q)), s.q)}
    [] r.op = "unread" ->
         LET back == [q |-> r.d \o s.q, pos |-> s.pos - 1, last |-> IF s.last = <<>> THEN <<>> ELSE SubSeq(s.last, 1, Len(s.last) - 1)]
         IN IF s.pos = 0 THEN {Refuse(s)}
            ELSE IF s.last # <<>> /\ s.last[Len(s.last)] = r.d[1] THEN {Ok(back, <<>>)}
            ELSE {Ok(back, <<>>), Refuse(s)}               \* not what was there: it may be refused
=============================================================================
