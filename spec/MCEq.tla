--------------------------------- MODULE MCEq ---------------------------------
(***************************************************************************)
(* Equality on all pairs of some values: it is an equivalence wherever it  *)
(* is decided, and what is equal is equal as an instant.                   *)
(***************************************************************************)
EXTENDS IonEq, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
V == P.values
K == DOMAIN V

\* Computed once
Exact == [x \in K |-> [y \in K |-> Eq(V[x], V[y], FALSE)]]
Instants == [x \in K |-> [y \in K |-> Eq(V[x], V[y], TRUE)]]

VARIABLES a
vars == <<a>>

Init == a = 0
Next == a < Len(V) /\ a' = a + 1 /\ PrintT("@@" \o ToJson(a'))
Spec == Init /\ [][Next]_vars

Laws(E) ==
  a # 0 =>
    /\ E[a][a] = "t"
    /\ \A b \in K : E[a][b] = E[b][a]
    /\ \A b, c \in K : E[a][b] = "t" /\ E[b][c] = "t" => E[a][c] = "t"
    \* a plain value may be undecided where what it equals is decided, never the other way round
    /\ \A b, c \in K : E[a][b] = "t" /\ E[b][c] = "f" => E[a][c] # "t"
Equivalence == Laws(Exact)
OfInstants == Laws(Instants)
Weaker == a # 0 => \A b \in K : Exact[a][b] = "t" => Instants[a][b] = "t"
=============================================================================
