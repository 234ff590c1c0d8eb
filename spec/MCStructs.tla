------------------------------ MODULE MCStructs ------------------------------
(***************************************************************************)
(* All histories of N changes to multimaps, checked against the laws that  *)
(* a multimap stands for, and written out to be replayed against the code. *)
(***************************************************************************)
EXTENDS Structs, Json

CONSTANTS N, Objects

VARIABLES st, hist, prev
vars == <<st, hist, prev>>

Req(op, o, n, x, ps, es) == [op |-> op, o |-> o, n |-> n, x |-> x, ps |-> ps, es |-> es]
E(how, at, x) == [how |-> how, at |-> at, x |-> x]

Changes(s) ==
  (IF Len(s) < Objects
   THEN {Req("new", 0, 0, 11, ps, <<>>) : ps \in {<<>>, << <<0, 12>>, <<1, 13>> >>, << <<0, 12>>, <<0, 13>> >>}}
        \cup {Req(op, o, 0, 11, <<>>, <<>>) : op \in {"copy", "deepcopy", "pickle", "from"}, o \in 1..Len(s)}
   ELSE {})
  \cup UNION {{Req("add", o, n, x, <<>>, <<>>) : n \in {0, 1}, x \in {0, 14}}
              \cup {Req(op, o, n, 15, <<>>, <<>>) : op \in {"set", "del", "pop", "popd", "setdefault"}, n \in {0, 1}}
              \cup {Req("clear", o, 0, 0, <<>>, <<>>)}
              \cup {Req("list", o, 0, 0, <<>>, es) : es \in {<<E("append", 0, 16), E("del", 0, 0)>>, <<E("insert", 1, 17), E("set", 0, 18)>>}}
              : o \in 1..Len(s)}

Init == st = <<>> /\ hist = <<>> /\ prev = <<>>

Next ==
  /\ Len(hist) < N
  /\ \E q \in Changes(st) :
       /\ hist' = Append(hist, q) /\ prev' = st /\ st' = Apply(st, q).st
       /\ (Len(hist) = N - 1 => PrintT("@@" \o ToJson(hist')))

Spec == Init /\ [][Next]_vars

(* Every value is under one name, and they are all counted. *)
Counted == \A o \in 1..Len(st) :
             Len(st[o]) = FoldLeft(LAMBDA acc, n : acc + Len(ValuesOf(st[o], n)), 0, SetToSeq(NamesOf(st[o])))

(* What the last change did to the object it was made to, and that it did nothing to others. *)
Law ==
  hist # <<>> =>
    LET q == hist[Len(hist)]
        made == q.op \in {"new", "copy", "deepcopy", "pickle", "from"}
        m == prev[q.o]
        w == st[q.o]
        others == \A k \in {0, 1} \ {q.n} : ValuesOf(w, k) = ValuesOf(m, k)
        old == ValuesOf(m, q.n)
    IN /\ \A o \in 1..Len(prev) : (made \/ o # q.o) => st[o] = prev[o]
       /\ CASE q.op = "new" -> Cardinality(NamesOf(st[Len(st)])) = Len(st[Len(st)])
            [] made -> st[Len(st)] = m
            [] q.op = "add" -> others /\ ValuesOf(w, q.n) = Append(old, q.x)
            [] q.op = "set" -> others /\ ValuesOf(w, q.n) = <<q.x>>
            [] q.op \in {"del", "pop", "popd"} -> others /\ ValuesOf(w, q.n) = <<>>
            [] q.op = "setdefault" -> others /\ ValuesOf(w, q.n) = (IF old = <<>> THEN <<q.x>> ELSE old)
            [] q.op = "clear" -> w = <<>>
            [] OTHER -> w = m
=============================================================================
