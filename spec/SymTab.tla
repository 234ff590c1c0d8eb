------------------------------- MODULE SymTab -------------------------------
(***************************************************************************)
(* Symbol tables and catalogs.                                             *)
(*                                                                         *)
(* A table is a sequence of entries, the symbol ID being the index; an     *)
(* entry is [x, l]: x is <<>> when the text is unknown, else <<code        *)
(* points>>; l is <<>> for a symbol defined locally, else <<name,          *)
(* <<position>>>>, the slot of the shared table it comes from.             *)
(* A catalog is a sequence of registered tables [n, v, s] (name, version,  *)
(* sequence of x); a later registration replaces an earlier one.           *)
(***************************************************************************)
EXTENDS IonBase

T_ion == <<36, 105, 111, 110>>
T_ion_1_0 == <<36, 105, 111, 110, 95, 49, 95, 48>>
T_symbol_table == <<36, 105, 111, 110, 95, 115, 121, 109, 98, 111, 108, 95, 116, 97, 98, 108, 101>>
T_name == <<110, 97, 109, 101>>
T_version == <<118, 101, 114, 115, 105, 111, 110>>
T_imports == <<105, 109, 112, 111, 114, 116, 115>>
T_symbols == <<115, 121, 109, 98, 111, 108, 115>>
T_max_id == <<109, 97, 120, 95, 105, 100>>
T_shared == <<36, 105, 111, 110, 95, 115, 104, 97, 114, 101, 100, 95, 115, 121, 109, 98, 111, 108, 95, 116, 97, 98, 108, 101>>

Entry(x, l) == [x |-> x, l |-> l]
Loc(name, pos) == <<name, <<pos>>>>

SystemText == <<T_ion, T_ion_1_0, T_symbol_table, T_name, T_version, T_imports, T_symbols, T_max_id, T_shared>>
SystemTab == [i \in 1..9 |-> Entry(<<SystemText[i]>>, Loc(T_ion, i))]

\* The entries of a shared table of the given name whose symbols are xs
SharedTab(name, xs) == [i \in 1..Len(xs) |-> Entry(xs[i], Loc(name, i))]

\* What a symbol ID means in a table: [k, tok]
Lookup(tab, sid) ==
  IF sid = 0 THEN [k |-> "ok", tok |-> SidTok(0)]
  ELSE IF sid > Len(tab) THEN [k |-> "err"]
  ELSE LET e == tab[sid]
       IN [k |-> "ok", tok |-> IF e.x # <<>> THEN TextTok(e.x[1])
                               ELSE IF e.l # <<>> THEN <<<<2>>, e.l[1], e.l[2]>> ELSE SidTok(sid)]
Resolve(tab, tok) == IF tok[1] = <<0>> THEN Lookup(tab, tok[2][1]) ELSE [k |-> "ok", tok |-> tok]

\* The symbol ID a text maps to: the lowest one, 0 when there is none
RECURSIVE IndexFrom(_, _, _)
IndexFrom(tab, cps, i) == IF i > Len(tab) THEN 0 ELSE IF tab[i].x = <<cps>> THEN i ELSE IndexFrom(tab, cps, i + 1)
SidOf(tab, cps) == IndexFrom(tab, cps, 1)

\* Importing a table into a local one: of a local table, all but what it has of the system's.
Imported(tab, local) == IF local THEN SelectSeq(tab, LAMBDA e : e.l = <<>> \/ e.l[1] # T_ion) ELSE tab
LocalTab(imports, xs) ==   \* imports: sequence of [tab, local]
  SystemTab \o FoldLeft(LAMBDA acc, t : acc \o Imported(t.tab, t.local), <<>>, imports)
    \o [i \in 1..Len(xs) |-> Entry(xs[i], <<>>)]

\* First max symbols of xs, padded with unknown text
Resize(xs, max) == [i \in 1..max |-> IF i <= Len(xs) THEN xs[i] ELSE <<>>]

\* Import of name (version ver, max < 0: not given): [k, v, xs, sub]; k = "err" when
\* an exact match is required but not there.  v and sub describe the table obtained.
CatResolve(cat, name, ver, max) ==
  LET Named == {k \in 1..Len(cat) : cat[k].n = name}
      Cur == {k \in Named : \A q \in Named : cat[q].v = cat[k].v => q <= k}
      Exact == {k \in Cur : cat[k].v = ver}
      k == CHOOSE q \in Cur : \A z \in Cur : cat[z].v <= cat[q].v
      best == IF Exact # {} THEN cat[CHOOSE q \in Exact : TRUE] ELSE cat[k]
      ok(xs, sub) == [k |-> "ok", v |-> ver, xs |-> xs, sub |-> sub]
  IN IF Named = {} THEN IF max < 0 THEN [k |-> "err"] ELSE ok(Resize(<<>>, max), TRUE)
     ELSE IF Exact # {} /\ (max < 0 \/ Len(best.s) = max) THEN ok(best.s, FALSE)
     ELSE IF max < 0 THEN [k |-> "err"]
     ELSE ok(Resize(best.s, max), TRUE)
=============================================================================
