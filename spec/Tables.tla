-------------------------------- MODULE Tables --------------------------------
(***************************************************************************)
(* Histories of symbol tables and of a catalog.                            *)
(*                                                                         *)
(* The state is [ts, cat]: ts a sequence of tables [ty, n, v, tab, sub] (ty*)
(* "local", "shared" or "system"; n name or <<>>; v version, 0 for none;   *)
(* tab as in SymTab; sub: is a substitute), and cat a sequence of          *)
(* registrations [n, v, s, t] (see SymTab), t being the registered table.  *)
(* The system's table is table 1.                                          *)
(***************************************************************************)
EXTENDS SymTab

Table(ty, n, v, tab, sub) == [ty |-> ty, n |-> n, v |-> v, tab |-> tab, sub |-> sub]
SystemTable == Table("system", T_ion, 1, SystemTab, FALSE)
Start == [ts |-> <<SystemTable>>, cat |-> <<>>]

Texts(tab) == [i \in 1..Len(tab) |-> tab[i].x]
\* Symbols given as texts: <<>> for None, <<cps>>, or anything else, which is refused
AreTexts(xs) == \A i \in 1..Len(xs) : Len(xs[i]) < 2

NewTab(st, q) ==
  IF q.ty = "local"
  THEN LocalTab([i \in 1..Len(q.imports) |-> [tab |-> st.ts[q.imports[i]].tab, local |-> st.ts[q.imports[i]].ty = "local"]], q.xs)
  ELSE SharedTab(q.n[1], FoldLeft(LAMBDA acc, i : acc \o Texts(st.ts[i].tab), <<>>, q.imports) \o q.xs)
\* n is <<>> for None, <<cps>> for a text, and longer for what is no text; v is <<>> or <<number>>
NewRefused(q) ==
  \/ ~AreTexts(q.xs)
  \/ q.ty = "local" /\ (q.n # <<>> \/ q.v # <<>>)
  \/ q.ty = "shared" /\ (Len(q.n) # 1 \/ q.v = <<>> \/ q.v[1] <= 0)
  \/ q.ty = "system" /\ (q.n # <<T_ion>> \/ q.v = <<>> \/ q.v[1] <= 0 \/ q.imports # <<>> \/ q.hasimports)

\* An answer: [k, e, t]: e is <<>> or <<<<sid, entry>>>>, t the number of the table given (0: none)
Got(e) == [k |-> "ok", e |-> e, t |-> 0]
Nothing == Got(<<>>)
Refused == [k |-> "err", e |-> <<>>, t |-> 0]
Slot(tab, sid) == IF sid = 0 THEN <<<<0, Entry(<<>>, <<>>)>>>> ELSE IF sid < 1 \/ sid > Len(tab) THEN <<>> ELSE <<<<sid, tab[sid]>>>>
ByText(tab, cps) == Slot(tab, IF SidOf(tab, cps) = 0 THEN 0 - 1 ELSE SidOf(tab, cps))
SameTable(a, b) == a.ty = b.ty /\ a.n = b.n /\ a.v = b.v /\ a.sub = b.sub /\ a.tab = b.tab

Apply(st, q) ==
  LET T == IF q.o = 0 THEN SystemTable ELSE st.ts[q.o]
      Same(r) == [st |-> st, r |-> r]
      Make(t) == [st |-> [st EXCEPT !.ts = Append(@, t)], r |-> [k |-> "ok", e |-> <<>>, t |-> Len(st.ts) + 1]]
      No == Same(Refused)
      Known(x) == ByText(T.tab, x)
  IN CASE q.op = "new" -> IF NewRefused(q) THEN No
                          ELSE Make(IF q.ty = "system" THEN [SystemTable EXCEPT !.v = q.v[1]]
                                    ELSE Table(q.ty, IF q.ty = "local" THEN <<>> ELSE q.n[1], IF q.ty = "local" THEN 0 ELSE q.v[1], NewTab(st, q), FALSE))
       [] q.op = "placeholder" -> IF q.max[1] < 0 \/ q.v[1] <= 0 \/ Len(q.n) # 1 THEN No
                                  ELSE Make(Table("shared", q.n[1], q.v[1], SharedTab(q.n[1], Resize(<<>>, q.max[1])), TRUE))
       [] q.op = "substitute" -> IF q.max[1] < 0 \/ q.v[1] <= 0 \/ T.ty = "local" THEN No
                                 ELSE Make(Table("shared", T.n, q.v[1], SharedTab(T.n, Resize(Texts(T.tab), q.max[1])), TRUE))
       [] q.op = "intern" -> IF T.ty # "local" \/ Len(q.x) # 1 THEN No
                             ELSE IF Known(q.x[1]) # <<>> THEN Same(Got(Known(q.x[1])))
                             ELSE LET tab == Append(T.tab, Entry(q.x, <<>>))
                                  IN [st |-> [st EXCEPT !.ts[q.o].tab = tab], r |-> Got(<<<<Len(tab), tab[Len(tab)]>>>>)]
       [] q.op = "text" -> Same(Got(Known(q.x[1])))
       [] q.op = "sid" -> Same(Got(Slot(T.tab, q.max[1])))
       [] q.op = "textitem" -> IF Known(q.x[1]) = <<>> THEN No ELSE Same(Got(Known(q.x[1])))
       [] q.op = "siditem" -> IF Slot(T.tab, q.max[1]) = <<>> THEN No ELSE Same(Got(Slot(T.tab, q.max[1])))
       [] q.op = "badkey" -> No
       [] q.op = "eq" -> Same([k |-> IF SameTable(T, st.ts[q.imports[1]]) THEN "yes" ELSE "no", e |-> <<>>, t |-> 0])
       [] q.op = "register" -> IF T.ty # "shared" \/ T.sub THEN No
                               ELSE [st |-> [st EXCEPT !.cat = Append(@, [n |-> T.n, v |-> T.v, s |-> Texts(T.tab), t |-> q.o])], r |-> Nothing]
       [] q.op = "resolve" ->
            IF Len(q.n) # 1 \/ Len(q.v) # 1 \/ q.v[1] <= 0 \/ (q.max # <<>> /\ q.max[1] < 0) THEN No
            ELSE LET c == CatResolve(st.cat, q.n[1], q.v[1], IF q.max = <<>> THEN 0 - 1 ELSE q.max[1])
                     hit == CHOOSE k \in 1..Len(st.cat) : st.cat[k].n = q.n[1] /\ st.cat[k].v = q.v[1] /\ \A z \in 1..Len(st.cat) : st.cat[z].n = q.n[1] /\ st.cat[z].v = q.v[1] => z <= k
                 IN IF c.k = "err" THEN No
                    ELSE IF ~c.sub THEN Same([k |-> "ok", e |-> <<>>, t |-> st.cat[hit].t])
                    ELSE Make(Table("shared", q.n[1], c.v, SharedTab(q.n[1], c.xs), TRUE))
       [] OTHER -> No

(* Invariants of every history *)
Dense(st) == \A i \in 1..Len(st.ts) : st.ts[i].ty = "local" => SubSeq(st.ts[i].tab, 1, 9) = SystemTab
LowestWins(st) == \A i \in 1..Len(st.ts) : \A s \in 1..Len(st.ts[i].tab) :
                    LET x == st.ts[i].tab[s].x IN x # <<>> => /\ SidOf(st.ts[i].tab, x[1]) <= s
                                                              /\ st.ts[i].tab[SidOf(st.ts[i].tab, x[1])].x = x
Located(st) == \A i \in 1..Len(st.ts) : st.ts[i].ty = "shared" => \A s \in 1..Len(st.ts[i].tab) : st.ts[i].tab[s].l = Loc(st.ts[i].n, s)
=============================================================================
