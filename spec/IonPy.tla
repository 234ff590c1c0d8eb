--------------------------------- MODULE IonPy ---------------------------------
(***************************************************************************)
(* Ion values as Python objects: made from Python values and events, turned*)
(* into events, copied.                                                    *)
(*                                                                         *)
(* An object is a tree [c, t, n, v, a, xs, fs]: class, Ion type, is null,  *)
(* value, annotations, members and, for a struct, their names (listed by   *)
(* name).  The state is a sequence of [o, h, loose]: objects with the same *)
(* h share their members; loose: a member has been changed through another *)
(* object, so that it is no longer known.                                  *)
(***************************************************************************)
EXTENDS IonBase

Class(t, n, c) ==
  IF n THEN "IonPyNull"
  ELSE CASE t \in {"bool", "int"} -> "IonPyInt" [] t = "float" -> "IonPyFloat" [] t = "decimal" -> "IonPyDecimal"
         [] t = "timestamp" -> "IonPyTimestamp" [] t = "symbol" -> c [] t = "string" -> "IonPyText" [] t \in {"clob", "blob"} -> "IonPyBytes"
         [] t \in {"list", "sexp"} -> "IonPyList" [] OTHER -> "IonPyDict"
IsContainer(o) == o.t \in {"list", "sexp", "struct"} /\ ~o.n

\* An object whose members are shared with nobody
Fresh(st, o) == Append(st, [o |-> o, h |-> Len(st) + 1, loose |-> FALSE])
Sharing(st, o, k) == Append(st, [o |-> o, h |-> st[k].h, loose |-> FALSE])

\* Where a new member goes: the last among those whose name comes no later (name z comes after all others).
Push(o, x) == [o EXCEPT !.xs = Append(@, x), !.fs = IF o.t = "struct" THEN Append(@, <<<<1>>, <<122>>>>) ELSE @]
Inner(o) == {i \in 1..Len(o.xs) : o.xs[i].c \in {"IonPyList", "list"}}
First(S) == CHOOSE i \in S : \A k \in S : i <= k

Apply(st, q) ==
  LET o == st[q.o].o
      Make(x) == [st |-> Fresh(st, x), r |-> [k |-> "ok", v |-> x]]
      Share(x) == [st |-> Sharing(st, x, q.o), r |-> [k |-> "ok", v |-> x]]
  IN CASE q.op \in {"value", "event"} ->
            Make([c |-> Class(q.t, q.src.n, q.c), t |-> q.t, n |-> q.src.n, v |-> q.src.v, a |-> q.a, xs |-> q.src.xs, fs |-> q.src.fs])
       [] q.op \in {"copy", "_copy"} -> Share(o)
       [] q.op \in {"deepcopy", "pickle"} -> Make(o)
       [] q.op = "again" -> Share([o EXCEPT !.a = q.a])
       [] q.op = "toevent" ->
            [st |-> st, r |-> [k |-> "event", v |-> [e |-> q.e, t |-> o.t, v |-> IF o.n \/ IsContainer(o) THEN <<>> ELSE <<o>>, f |-> q.f, a |-> o.a, d |-> q.d]]]
       [] q.op = "push" -> [st |-> [st EXCEPT ![q.o].o = Push(o, q.src)], r |-> [k |-> "ok", v |-> Push(o, q.src)]]
       [] q.op = "inner" ->
            LET i == First(Inner(o))
                x == [o EXCEPT !.xs[i] = [@ EXCEPT !.xs = Append(@, q.src)]]
            IN [st |-> [k \in 1..Len(st) |-> IF k = q.o THEN [st[k] EXCEPT !.o = x] ELSE IF st[k].h = st[q.o].h THEN [st[k] EXCEPT !.loose = TRUE] ELSE st[k]],
                r |-> [k |-> "ok", v |-> x]]
=============================================================================
