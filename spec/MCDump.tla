-------------------------------- MODULE MCDump --------------------------------
(***************************************************************************)
(* Some Python values with all choices of the options of dump: what dump   *)
(* has to write can be written, and reading it gives the same trees.       *)
(***************************************************************************)
EXTENDS IonValue, IonEncode, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)

VARIABLES k, bin, stream, sexp, omit, done
vars == <<k, bin, stream, sexp, omit, done>>

Init == /\ k \in DOMAIN P.values
        /\ bin \in BOOLEAN /\ stream \in BOOLEAN /\ sexp \in BOOLEAN /\ omit \in BOOLEAN
        /\ done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ PrintT("@@" \o ToJson(<<k, bin, stream, sexp, omit>>))
        /\ UNCHANGED <<k, bin, stream, sexp, omit>>
Spec == Init /\ [][Next]_vars

\* The events of a tree
RECURSIVE EventsOf(_, _, _)
EventsOf(x, f, d) ==
  IF x.n \/ x.t \notin Containers THEN <<Ev("val", x.t, x.v, f, x.a, d)>>
  ELSE <<Ev("start", x.t, <<>>, f, x.a, d)>>
         \o FoldLeft(LAMBDA acc, i : acc \o EventsOf(x.xs[i], IF x.t = "struct" THEN x.fs[i] ELSE <<>>, d + 1), <<>>, [i \in 1..Len(x.xs) |-> i])
         \o <<Ev("end", x.t, <<>>, <<>>, <<>>, d)>>

X == P.values[k]
Sequence == stream /\ (X.p \in {"list", "tuple"} \/ (X.p = "ion" /\ X.t \in {"list", "sexp"} /\ ~X.n))
Wanted == IF Sequence THEN [i \in 1..Len(X.xs) |-> Dumped(X.xs[i], sexp)] ELSE <<Dumped(X, sexp)>>
Fine == ~AnyIn(X, Undumpable) /\ ~(\E i \in DOMAIN Wanted : SystemLike(Wanted[i]))

C == [bin |-> bin, imports |-> <<>>, badimp |-> FALSE, cat |-> <<>>]
RoundTrip ==
  Fine => LET evs == FoldLeft(LAMBDA acc, x : acc \o EventsOf(x, <<>>, 0), <<>>, Wanted)
              w == Denotes(C, Encode(C, evs))
          IN TreesOf(evs) = Wanted /\ w.k = "eos" /\ SameTrees(TreesOf(w.evs), Wanted)
\* What an Ion value dumps as does not depend on how tuples do
Settled == Fine => \A i \in DOMAIN Wanted : LET ion == [Wanted[i] EXCEPT !.p = "ion"] IN Dumped(ion, TRUE).t = Wanted[i].t
SameIsSame == \A i \in DOMAIN Wanted : SameTree(Wanted[i], Wanted[i])
=============================================================================
