------------------------------- MODULE MCTables -------------------------------
(***************************************************************************)
(* All histories of N requests to symbol tables and a catalog.             *)
(***************************************************************************)
EXTENDS Tables, Json

CONSTANTS N, Kind        \* "tables" or "catalog": which requests

VARIABLES st, hist, ans
vars == <<st, hist, ans>>

A == <<97>>
B == <<98>>
NM == <<84>>
Base == [op |-> "", o |-> 0, ty |-> "", n |-> <<>>, v |-> <<>>, imports |-> <<>>, hasimports |-> FALSE, iter |-> FALSE, xs |-> <<>>, x |-> <<A>>, max |-> <<>>]
NewReq(ty, v, imports, xs) == [Base EXCEPT !.op = "new", !.ty = ty, !.n = (IF ty = "local" THEN <<>> ELSE <<NM>>), !.v = (IF ty = "local" THEN <<>> ELSE <<v>>),
                                           !.imports = imports, !.hasimports = imports # <<>>, !.xs = xs]
All1 == 1..Len(st.ts)
Locals == {i \in All1 : st.ts[i].ty = "local"}
Shared == {i \in All1 : st.ts[i].ty = "shared"}

TableRequests ==
  {NewReq("local", 0, im, xs) : im \in {<<>>} \cup {<<i>> : i \in All1} \cup {<<i, Len(st.ts)>> : i \in All1}, xs \in {<<>>, <<<<A>>, <<>>, <<A>>>>}}
  \cup {NewReq("shared", 1, im, xs) : im \in {<<>>} \cup {<<i>> : i \in All1}, xs \in {<<<<A>>>>, <<<<>>, <<B>>>>}}
  \cup {[Base EXCEPT !.op = "intern", !.o = i, !.x = <<x>>] : i \in Locals, x \in {A, B, T_name}}
  \cup {[Base EXCEPT !.op = "intern", !.o = i, !.x = <<B>>] : i \in Shared}
  \cup {[Base EXCEPT !.op = "substitute", !.o = i, !.v = <<2>>, !.max = <<m>>] : i \in Shared, m \in {0, 2}}

CatalogRequests ==
  {NewReq("shared", v, <<>>, xs) : v \in {1, 2, 3}, xs \in {<<<<A>>, <<B>>>>, <<<<B>>>>}}
  \cup {[Base EXCEPT !.op = "register", !.o = Len(st.ts)]}
  \cup {[Base EXCEPT !.op = "register", !.o = i] : i \in Shared}
  \cup (IF st.cat # <<>> \/ Len(hist) < 2
        THEN {[Base EXCEPT !.op = "resolve", !.n = <<NM>>, !.v = <<v>>, !.max = m] : v \in {1, 2}, m \in {<<>>, <<0>>, <<1>>, <<2>>, <<3>>}}
        ELSE {})

Init == st = Start /\ hist = <<>> /\ ans = Nothing

Next ==
  /\ Len(hist) < N
  /\ \E q \in IF Kind = "tables" THEN TableRequests ELSE CatalogRequests :
       /\ hist' = Append(hist, q)
       /\ LET w == Apply(st, q) IN st' = w.st /\ ans' = w.r
       /\ (Len(hist) = N - 1 => PrintT("@@" \o ToJson(hist')))

Spec == Init /\ [][Next]_vars

Laws == Dense(st) /\ LowestWins(st) /\ Located(st)
\* What an import of a given size gives has that size, and is not said to be exact unless it is
Sized == LET q == hist[Len(hist)]
         IN hist # <<>> /\ q.op = "resolve" /\ ans.k = "ok" /\ q.max # <<>> =>
              LET t == st.ts[ans.t] IN Len(t.tab) = q.max[1] /\ t.n = NM /\ t.v = q.v[1]
Registered == \A i \in 1..Len(st.cat) : LET t == st.ts[st.cat[i].t] IN t.ty = "shared" /\ ~t.sub
=============================================================================
