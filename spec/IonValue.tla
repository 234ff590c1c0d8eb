------------------------------ MODULE IonValue ------------------------------
(***************************************************************************)
(* Ion values as trees, and the Python values that stand for them.         *)
(*                                                                         *)
(* A tree is [p, t, n, v, a, fs, xs]: p the Python class ("" when there is *)
(* none), t the Ion type, n whether it is null, v the scalar value, a the  *)
(* annotations, xs the members of a container and fs, for a struct, their  *)
(* names.                                                                  *)
(***************************************************************************)
EXTENDS IonWriter

Tree(p, t, n, v, a, fs, xs) == [p |-> p, t |-> t, n |-> n, v |-> v, a |-> a, fs |-> fs, xs |-> xs]

\* The trees that a sequence of events amounts to (version markers left out)
TreesOf(evs) ==
  LET Add(stk, f, node) ==      \* stk: trees under construction, with [f, tree]; the first collects the top level
        LET top == stk[Len(stk)]
        IN [stk EXCEPT ![Len(stk)] = [top EXCEPT !.tree.xs = Append(@, node), !.tree.fs = IF top.tree.t = "struct" THEN Append(@, f) ELSE @]]
      Step(stk, ev) ==
        IF ev.e = "ivm" THEN stk
        ELSE IF ev.e = "val" THEN Add(stk, ev.f, Tree("", ev.t, ev.v = <<>>, ev.v, ev.a, <<>>, <<>>))
        ELSE IF ev.e = "start" THEN Append(stk, [f |-> ev.f, tree |-> Tree("", ev.t, FALSE, <<>>, ev.a, <<>>, <<>>)])
        ELSE LET k == Len(stk) IN Add(SubSeq(stk, 1, k - 1), stk[k].f, stk[k].tree)
      r == FoldLeft(Step, <<[f |-> <<>>, tree |-> Tree("", "list", FALSE, <<>>, <<>>, <<>>, <<>>)]>>, evs)
  IN r[1].tree.xs

\* Scalar values of one type; a float may be given as a literal's digits
ScalarEq(t, v, w) == IF t = "float" /\ Len(v) = 3 THEN Len(w) = 1 /\ NearestDouble(v[1][1], v[3], v[2][1], w[1]) ELSE v = w

\* The values of a repeated field keep their order, the order of the fields is nothing
Named(x, f) == LET I == SelectSeq([i \in 1..Len(x.fs) |-> i], LAMBDA i : x.fs[i] = f) IN [i \in 1..Len(I) |-> x.xs[I[i]]]

RECURSIVE SameTree(_, _)
SameTree(x, y) ==
  /\ x.t = y.t /\ x.n = y.n /\ x.a = y.a
  /\ IF x.n THEN TRUE
     ELSE IF x.t \notin Containers THEN ScalarEq(x.t, x.v, y.v)
     ELSE /\ Len(x.xs) = Len(y.xs)
          /\ IF x.t = "struct"
             THEN LET F == {x.fs[i] : i \in 1..Len(x.fs)}
                  IN /\ F = {y.fs[i] : i \in 1..Len(y.fs)}
                     /\ \A f \in F : LET p == Named(x, f) q == Named(y, f)
                                     IN Len(p) = Len(q) /\ \A i \in 1..Len(p) : SameTree(p[i], q[i])
             ELSE \A i \in 1..Len(x.xs) : SameTree(x.xs[i], y.xs[i])
SameTrees(xs, ys) == Len(xs) = Len(ys) /\ \A i \in 1..Len(xs) : SameTree(xs[i], ys[i])

RECURSIVE AllNodes(_)
AllNodes(x) == FoldLeft(LAMBDA acc, y : acc \o AllNodes(y), <<x>>, x.xs)
AnyIn(x, P(_)) == LET ns == AllNodes(x) IN \E i \in 1..Len(ns) : P(ns[i])

\* Tokens of a tree without known text
Unknown(x) == LET U(tok) == tok = <<>> \/ tok[1] # <<1>>
              IN \/ \E i \in 1..Len(x.a) : U(x.a[i])
                 \/ \E i \in 1..Len(x.fs) : U(x.fs[i])
                 \/ x.t = "symbol" /\ ~x.n /\ U(x.v)

\* What a reader takes for its own at the top level
SystemLike(x) == /\ ~x.n
                 /\ \/ x.t = "symbol" /\ x.a = <<>> /\ x.v # <<>> /\ x.v = <<<<1>>, T_ion_1_0>>
                    \/ x.t = "struct" /\ x.a # <<>> /\ x.a[1] = <<<<1>>, T_symbol_table>>

(***************************************************************************)
(* What dump makes of Python values.  x.p is the Python type, "ion" for a  *)
(* value with an Ion type of its own.                                      *)
(***************************************************************************)
PyType(p, sexp) ==
  CASE p = "None" -> "null" [] p = "bool" -> "bool" [] p = "int" -> "int" [] p = "float" -> "float"
    [] p = "Decimal" -> "decimal" [] p \in {"datetime", "Timestamp"} -> "timestamp" [] p = "SymbolToken" -> "symbol"
    [] p = "str" -> "string" [] p = "bytes" -> "blob" [] p = "list" -> "list"
    [] p = "tuple" -> (IF sexp THEN "sexp" ELSE "list") [] p \in {"dict", "namedtuple"} -> "struct" [] OTHER -> "?"

RECURSIVE Dumped(_, _)
Dumped(x, sexp) ==
  LET t == IF x.p = "ion" THEN x.t ELSE PyType(x.p, sexp)
  IN Tree("", t, x.n, x.v, x.a, x.fs, [i \in 1..Len(x.xs) |-> Dumped(x.xs[i], sexp)])

\* Objects that have no Ion type, field names that are not text
Undumpable(x) == x.p = "other" \/ \E i \in 1..Len(x.fs) : x.fs[i] = <<>>

\* The classes load hands out
LoadedClass(t, null) ==
  IF null \/ t = "null" THEN "IonPyNull"
  ELSE CASE t \in {"bool", "int"} -> "IonPyInt" [] t = "float" -> "IonPyFloat" [] t = "decimal" -> "IonPyDecimal"
         [] t = "timestamp" -> "IonPyTimestamp" [] t = "symbol" -> "IonPySymbol" [] t = "string" -> "IonPyText"
         [] t \in {"clob", "blob"} -> "IonPyBytes" [] t \in {"list", "sexp"} -> "IonPyList" [] OTHER -> "IonPyDict"
Misclassed(x) == x.p # LoadedClass(x.t, x.n)
=============================================================================
