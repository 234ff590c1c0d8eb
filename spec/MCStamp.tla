-------------------------------- MODULE MCStamp --------------------------------
(***************************************************************************)
(* All combinations of arguments of a construction, from lists of values.  *)
(***************************************************************************)
EXTENDS IonTimestamp, Json

CONSTANTS Wide

VARIABLES q
vars == <<q>>

Opt(S) == {<<>>} \cup {<<x>> : x \in S}
Fractions == {<<0, <<0>>, 0>>, <<1, <<0>>, 0 - 3>>, <<0, <<5>>, 0 - 1>>, <<0, <<1, 2, 3, 4, 5, 6>>, 0 - 6>>, <<0, <<1, 0>>, 0 - 8>>, <<0, <<1>>, 0>>, <<1, <<5>>, 0 - 2>>, <<0, <<1, 5>>, 0 - 1>>}
               \cup IF Wide THEN {<<0, <<0>>, 2>>, <<0, <<0>>, 0 - 9>>, <<0, <<9, 9, 9, 9, 9, 9, 9>>, 0 - 7>>, <<0, <<0, 0, 7>>, 0 - 3>>} ELSE {}
Years == {<<2000, 2, 29, 23, 59, 58>>, <<1999, 12, 31>>} \cup IF Wide THEN {<<1, 1, 1, 0, 0, 0>>, <<2001>>, <<2001, 2, 29, 1, 1, 1>>, <<9999, 12, 31, 1>>} ELSE {<<2001, 2, 29>>}
Offs == IF Wide THEN {0, 330, 0 - 1439, 1439, 1440} ELSE {0, 330, 0 - 1440}

Requests ==
  {[op |-> "new", s |-> 0, how |-> how, y |-> y, us |-> us, fp |-> fp, fs |-> fs, prec |-> prec, off |-> (IF how = "ctor" THEN off ELSE <<>>),
    oh |-> (IF how = "fn" /\ off # <<>> THEN <<IF off[1] >= 0 THEN off[1] \div 60 ELSE 0 - ((0 - off[1]) \div 60)>> ELSE <<>>),
    om |-> (IF how = "fn" /\ off # <<>> THEN <<IF off[1] >= 0 THEN off[1] % 60 ELSE 0 - ((0 - off[1]) % 60)>> ELSE <<>>), pos |-> 3, nones |-> FALSE] :
   how \in {"fn", "ctor"}, y \in Years, us \in Opt(IF Wide THEN {0, 500000, 120000, 999999, 1, 1000000} ELSE {0, 500000, 123456}),
   fp \in Opt(IF Wide THEN 0..7 ELSE {0, 1, 6, 7}), fs \in {<<>>} \cup Fractions,
   prec \in Opt(IF Wide THEN 0..4 ELSE {0, 3, 4}), off \in Opt(Offs)}

Init == q \in Requests /\ PrintT("@@" \o ToJson(<<q>>))
Next == FALSE /\ UNCHANGED q
Spec == Init /\ [][Next]_vars

(* A construction that is not refused makes an object whose fields agree with one another. *)
Agrees == ~Refused(q) =>
            LET f == Given(q)
                o == [c |-> "T", y |-> Full(q.y), us |-> Micro(f), fp |-> <<Min2(Len(f), US)>>, prec |-> q.prec, off |-> NewOff(q), t |-> "", a |-> <<>>,
                      fs |-> (IF q.fs # <<>> /\ q.fs[3] <= 0 THEN q.fs ELSE <<0, IF f = <<>> THEN <<0>> ELSE f, 0 - Len(f)>>)]
            IN Consistent(o) /\ Same(o, o) /\ \A i \in 1..Len(f) : f[i] \in 0..9
=============================================================================
