-------------------------------- MODULE IonEq --------------------------------
(***************************************************************************)
(* Equality in the Ion data model, between trees of IonValue whose p tells *)
(* plain Python values from those with an Ion type of their own ("ion").   *)
(* The answer is "t", "f", or "u" where documentation does not settle it:  *)
(* how a plain sequence, str or bytes compares with a sexp, symbol or      *)
(* clob, and symbols of unknown text with different local IDs.             *)
(***************************************************************************)
EXTENDS IonValue

And(a, b) == IF a = "f" \/ b = "f" THEN "f" ELSE IF a = "u" \/ b = "u" THEN "u" ELSE "t"
Bool(b) == IF b THEN "t" ELSE "f"
All(s) == FoldLeft(And, "t", s)

TokEq(x, y) ==
  IF x[1] = <<1>> \/ y[1] = <<1>> THEN Bool(x[1] = y[1] /\ x[2] = y[2])
  ELSE IF x[1] = <<2>> \/ y[1] = <<2>> THEN Bool(x = y)
  ELSE IF x = y THEN "t" ELSE "u"

EqType(x) == IF x.p = "ion" THEN x.t ELSE PyType(x.p, FALSE)
Loose == {{"list", "sexp"}, {"string", "symbol"}, {"blob", "clob"}}

(* Instants: days since 0000-03-01, minute of that day, second, fraction. *)
Days(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      mp == (m + 9) % 12
  IN ((365 * yy) + (yy \div 4) - (yy \div 100) + (yy \div 400)) + ((((153 * mp) + 2) \div 5) + d - 1)
Stripped(ds) == IF \E i \in 1..Len(ds) : ds[i] # 0
                THEN SubSeq(ds, 1, CHOOSE i \in 1..Len(ds) : ds[i] # 0 /\ \A k \in (i + 1)..Len(ds) : ds[k] = 0) ELSE <<>>
Instant(v) ==
  LET y == v[2]
      off == IF v[3] = <<1>> THEN v[4][1] ELSE 0
      mins == ((y[4] * 60) + y[5]) - off
      shift == IF mins < 0 THEN 0 - 1 ELSE IF mins >= 1440 THEN 1 ELSE 0
  IN <<Days(y[1], y[2], y[3]) + shift, mins - (shift * 1440), y[6], Stripped(v[6])>>

(* The values of a repeated field are paired up: equality is an equivalence, so the choice of partner is free. *)
RECURSIVE Eq(_, _, _)
Eq(x, y, inst) ==
  LET tx == EqType(x)
      ty == EqType(y)
      plain == x.p # "ion" \/ y.p # "ion"
      anns == IF Len(x.a) # Len(y.a) THEN "f" ELSE All([i \in 1..Len(x.a) |-> TokEq(x.a[i], y.a[i])])
      types == IF tx = ty THEN "t" ELSE IF plain /\ {tx, ty} \in Loose THEN "u" ELSE "f"
      Members(p, q) == IF Len(p) # Len(q) THEN "f" ELSE All([i \in 1..Len(p) |-> Eq(p[i], q[i], inst)])
      Bag(p, q) ==
        IF Len(p) # Len(q) THEN "f"
        ELSE LET n == Len(p)
                 m == [i \in 1..n |-> [k \in 1..n |-> Eq(p[i], q[k], inst)]]
                 left == FoldLeft(LAMBDA rem, i : LET K == {k \in rem : m[i][k] = "t"} IN IF K = {} THEN rem ELSE rem \ {CHOOSE k \in K : TRUE},
                                  1..n, [i \in 1..n |-> i])
             IN IF left = {} THEN "t" ELSE IF \E i, k \in 1..n : m[i][k] = "u" THEN "u" ELSE "f"
      Fields == LET FX == {x.fs[i] : i \in 1..Len(x.fs)}
                    FY == {y.fs[i] : i \in 1..Len(y.fs)}
                IN IF FX # FY THEN "f" ELSE All(LET F == SetToSeq(FX) IN [i \in 1..Len(F) |-> Bag(Named(x, F[i]), Named(y, F[i]))])
      values ==
        IF x.n \/ y.n THEN Bool(x.n = y.n /\ tx = ty)
        ELSE IF tx = "struct" /\ ty = "struct" THEN Fields
        ELSE IF tx \in {"list", "sexp"} /\ ty \in {"list", "sexp"} THEN Members(x.xs, y.xs)
        ELSE IF tx = "symbol" /\ ty = "symbol" THEN TokEq(x.v, y.v)
        ELSE IF tx # ty THEN "u"
        ELSE IF tx = "timestamp" /\ inst THEN Bool(Instant(x.v) = Instant(y.v))
        ELSE Bool(x.v = y.v)
  IN And(And(types, anns), values)
=============================================================================
