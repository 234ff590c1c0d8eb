------------------------------ MODULE IonEncode ------------------------------
(***************************************************************************)
(* One encoding of a sequence of events (as IonWriter's exp holds them) in *)
(* each of the two formats: the witness that what the writers are asked    *)
(* for can be written, and the inverse of IonBinary and IonText.           *)
(***************************************************************************)
EXTENDS IonWriter

(***************************************************************************)
(* Numbers                                                                 *)
(***************************************************************************)
\* Division of a big number by a small one: [q, r]
BigDivSmall(x, k) ==
  LET n == Len(x)
      r == FoldLeft(LAMBDA acc, i : LET v == (acc[2] * BASE) + x[(n + 1) - i]
                                    IN <<<<v \div k>> \o acc[1], v % k>>, <<<<>>, 0>>, [i \in 1..n |-> i])
  IN [q |-> BigNorm(r[1]), r |-> r[2]]
RECURSIVE BigToBytes(_, _)
BigToBytes(x, acc) == IF x = <<>> THEN acc ELSE LET r == BigDivSmall(x, 256) IN BigToBytes(r.q, <<r.r>> \o acc)
DigitsToBytes(ds) == BigToBytes(BigNorm(BigOfDigits(ds)), <<>>)

RECURSIVE VarUIntBytes(_, _)
VarUIntBytes(n, acc) == LET b == n % 128
                            h == IF acc = <<>> THEN <<128 + b>> ELSE <<b>> \o acc
                        IN IF n < 128 THEN h ELSE VarUIntBytes(n \div 128, h)
VarUInt(n) == VarUIntBytes(n, <<>>)
VarInt(neg, n) ==
  LET u == VarUInt(n)
      sign == IF neg THEN 64 ELSE 0
      first == u[1] % 128
  IN IF first < 64 THEN <<u[1] + sign>> \o Tail(u) ELSE <<sign>> \o u
IntField(neg, ds) ==
  LET b == DigitsToBytes(ds)
      sign == 128 * neg
  IN IF b = <<>> THEN IF neg = 1 THEN <<128>> ELSE <<>>
     ELSE IF b[1] < 128 THEN <<b[1] + sign>> \o Tail(b) ELSE <<sign>> \o b
RECURSIVE NatBytes(_)
NatBytes(n) == IF n = 0 THEN <<>> ELSE NatBytes(n \div 256) \o <<n % 256>>

(***************************************************************************)
(* Binary                                                                  *)
(***************************************************************************)
Tlv(t, body) == IF Len(body) < 14 THEN <<(16 * t) + Len(body)>> \o body ELSE <<(16 * t) + 14>> \o VarUInt(Len(body)) \o body
TypeCode(t) == CASE t = "null" -> 0 [] t = "bool" -> 1 [] t = "int" -> 2 [] t = "float" -> 4 [] t = "decimal" -> 5 [] t = "timestamp" -> 6
                 [] t = "symbol" -> 7 [] t = "string" -> 8 [] t = "clob" -> 9 [] t = "blob" -> 10 [] t = "list" -> 11 [] t = "sexp" -> 12 [] OTHER -> 13

DecimalBytes(v) == IF v[1] = <<0>> /\ v[2] = <<0>> /\ v[3] = <<0>> THEN <<>>
                   ELSE VarInt(v[2][1] < 0, Abs(v[2][1])) \o IntField(v[1][1], v[3])
TimestampBytes(v) ==
  LET p == v[1][1]
      known == v[3] = <<1>>
      f == IF known THEN AddMinutes(v[2], 0 - v[4][1]) ELSE v[2]
      n == CASE p = 4 -> 5 [] p = 5 -> 6 [] OTHER -> p
      frac == v[6]
  IN (IF known THEN VarInt(v[4][1] < 0, Abs(v[4][1])) ELSE <<192>>)
       \o FoldLeft(LAMBDA acc, k : acc \o VarUInt(f[k]), <<>>, [k \in 1..n |-> k])
       \o (IF frac = <<>> THEN <<>> ELSE VarInt(TRUE, Len(frac)) \o IntField(0, CanonDigits(frac)))

\* tab: the table in force.  Text is given by its lowest symbol ID.
LocIndex(tab, tok) == LET I == {i \in 1..Len(tab) : tab[i].x = <<>> /\ tab[i].l = <<tok[2], tok[3]>>} IN CHOOSE i \in I : \A k \in I : i <= k
TokSid(tab, tok) == IF tok[1] = <<1>> THEN SidOf(tab, tok[2]) ELSE IF tok[1] = <<2>> THEN LocIndex(tab, tok) ELSE tok[2][1]
ScalarBytes(tab, t, v) ==
  IF v = <<>> THEN <<(16 * TypeCode(t)) + 15>>
  ELSE CASE t = "bool" -> <<16 + v[1][1]>>
         [] t = "int" -> Tlv(2 + v[1][1], DigitsToBytes(v[2]))
         [] t = "float" -> Tlv(4, v[1])
         [] t = "decimal" -> Tlv(5, DecimalBytes(v))
         [] t = "timestamp" -> Tlv(6, TimestampBytes(v))
         [] t = "symbol" -> Tlv(7, NatBytes(TokSid(tab, v)))
         [] t = "string" -> Tlv(8, Utf8Encode(v[1]))
         [] OTHER -> Tlv(TypeCode(t), v[1])
Wrapped(tab, a, value) ==
  IF a = <<>> THEN value
  ELSE LET xs == FoldLeft(LAMBDA acc, t : acc \o VarUInt(TokSid(tab, t)), <<>>, a)
       IN Tlv(14, VarUInt(Len(xs)) \o xs \o value)

\* Encoding with a stack of frames [t, f, a, body]
BodyBytes(tab, evs) ==
  LET Put(stk, f, bytes) ==
        LET n == Len(stk) top == stk[n]
        IN [stk EXCEPT ![n].body = @ \o (IF top.t = "struct" THEN VarUInt(TokSid(tab, f)) ELSE <<>>) \o bytes]
      Step(stk, e) ==
        LET n == Len(stk)
        IN CASE e.e = "val" -> Put(stk, e.f, Wrapped(tab, e.a, ScalarBytes(tab, e.t, e.v)))
             [] e.e = "start" -> Append(stk, [t |-> e.t, f |-> e.f, a |-> e.a, body |-> <<>>])
             [] e.e = "end" -> Put(SubSeq(stk, 1, n - 1), stk[n].f, Wrapped(tab, stk[n].a, Tlv(TypeCode(stk[n].t), stk[n].body)))
             [] OTHER -> stk
  IN FoldLeft(Step, <<[t |-> "", f |-> <<>>, a |-> <<>>, body |-> <<>>]>>, evs)[1].body

EventTexts(e) == LET toks == (IF e.f = <<>> THEN <<>> ELSE <<e.f>>) \o e.a \o (IF e.e = "val" /\ e.t = "symbol" /\ e.v # <<>> THEN <<e.v>> ELSE <<>>)
                 IN FoldLeft(LAMBDA acc, t : IF t[1] = <<1>> THEN Append(acc, t[2]) ELSE acc, <<>>, toks)
\* The texts that need an entry of their own, in the order of their use
Interned(tab, evs) ==
  FoldLeft(LAMBDA acc, e : FoldLeft(LAMBDA xs, x : IF SidOf(tab, x) # 0 \/ \E i \in 1..Len(xs) : xs[i] = x THEN xs ELSE Append(xs, x), acc, EventTexts(e)), <<>>, evs)

StringValue(x) == Tlv(8, Utf8Encode(x))
ImportBytes(t) == Tlv(13, VarUInt(4) \o StringValue(t.n) \o VarUInt(5) \o Tlv(2, NatBytes(t.v)) \o VarUInt(8) \o Tlv(2, NatBytes(Len(t.s))))
LstBytes(c, xs) ==
  IF xs = <<>> /\ c.imports = <<>> THEN <<>>
  ELSE Tlv(14, <<129, 131>> \o Tlv(13,
         (IF c.imports = <<>> THEN <<>> ELSE VarUInt(6) \o Tlv(11, FoldLeft(LAMBDA acc, t : acc \o ImportBytes(t), <<>>, c.imports)))
           \o (IF xs = <<>> THEN <<>> ELSE VarUInt(7) \o Tlv(11, FoldLeft(LAMBDA acc, x : acc \o StringValue(x), <<>>, xs)))))

BinEncode(c, evs) ==
  LET tab == Fixed(c)
      xs == Interned(tab, evs)
  IN IVM \o LstBytes(c, xs) \o BodyBytes(tab \o [i \in 1..Len(xs) |-> Entry(<<xs[i]>>, <<>>)], evs)

(***************************************************************************)
(* Text.  Everything that may be quoted or escaped is.                     *)
(***************************************************************************)
Hex(n, width) == [i \in 1..width |-> LET d == (n \div (16 ^ (width - i))) % 16 IN IF d < 10 THEN 48 + d ELSE 87 + d]
Escaped(cps, bytes) ==
  FoldLeft(LAMBDA acc, x : acc \o (IF x \in 97..122 \/ x \in 65..90 \/ x \in 48..57 THEN <<x>>
                                   ELSE IF bytes \/ x < 256 THEN <<92, 120>> \o Hex(x, 2)
                                   ELSE IF x < 65536 THEN <<92, 117>> \o Hex(x, 4) ELSE <<92, 85>> \o Hex(x, 8)), <<>>, cps)
Digits(ds) == [i \in 1..Len(ds) |-> 48 + ds[i]]
Signed(neg, xs) == (IF neg = 1 THEN <<45>> ELSE <<>>) \o xs
IntText(n) == Signed(IF n < 0 THEN 1 ELSE 0, Digits(NatDigits(Abs(n))))

\* mantissa * 2^k, exactly
FloatText(b) ==
  LET s == b[1] \div 128
      ex == F64Exp(b)
      m == BigOfBytes(<<(IF ex = 0 THEN 0 ELSE 16) + (b[2] % 16), b[3], b[4], b[5], b[6], b[7], b[8]>>)
      k == IF ex = 0 THEN 0 - 1074 ELSE ex - 1075
      d == BigToDigits(IF k >= 0 THEN BigPow(m, 2, k) ELSE BigPow(m, 5, 0 - k))
  IN IF IsNan64(b) THEN <<110, 97, 110>>
     ELSE IF ex = 2047 THEN <<IF s = 1 THEN 45 ELSE 43, 105, 110, 102>>
     ELSE Signed(s, Digits(d)) \o <<101>> \o IntText(Min2(k, 0))
Two(n) == Hex(((n \div 10) * 16) + (n % 10), 2)
Four(n) == Two(n \div 100) \o Two(n % 100)
TimestampText(v) ==
  LET p == v[1][1] f == v[2]
      off == IF v[3] = <<0>> THEN <<45, 48, 48, 58, 48, 48>>
             ELSE <<IF v[4][1] < 0 THEN 45 ELSE 43>> \o Two(Abs(v[4][1]) \div 60) \o <<58>> \o Two(Abs(v[4][1]) % 60)
  IN Four(f[1]) \o (IF p = 1 THEN <<84>> ELSE <<45>> \o Two(f[2]) \o
       (IF p = 2 THEN <<84>> ELSE <<45>> \o Two(f[3]) \o
         (IF p = 3 THEN <<84>> ELSE <<84>> \o Two(f[4]) \o <<58>> \o Two(f[5]) \o
           (IF p = 4 THEN <<>> ELSE <<58>> \o Two(f[6]) \o (IF v[6] = <<>> THEN <<>> ELSE <<46>> \o Digits(v[6]))) \o off)))
TokText(tok) == IF tok[1] = <<1>> THEN <<39>> \o Escaped(tok[2], FALSE) \o <<39>>
                ELSE <<36>> \o Digits(NatDigits(tok[2][1]))
B64Digit(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
RECURSIVE Base64(_)
Base64(s) ==
  LET n == Len(s)
      x(i) == IF i <= n THEN s[i] ELSE 0
      q == <<B64Digit(x(1) \div 4), B64Digit(((x(1) % 4) * 16) + (x(2) \div 16)), B64Digit(((x(2) % 16) * 4) + (x(3) \div 64)), B64Digit(x(3) % 64)>>
  IN IF n = 0 THEN <<>>
     ELSE IF n = 1 THEN <<q[1], q[2], 61, 61>>
     ELSE IF n = 2 THEN <<q[1], q[2], q[3], 61>>
     ELSE q \o Base64(SubSeq(s, 4, n))
TypeText(t) == CASE t = "null" -> <<110, 117, 108, 108>> [] t = "bool" -> <<98, 111, 111, 108>> [] t = "int" -> <<105, 110, 116>> [] t = "float" -> <<102, 108, 111, 97, 116>>
                 [] t = "decimal" -> <<100, 101, 99, 105, 109, 97, 108>> [] t = "timestamp" -> <<116, 105, 109, 101, 115, 116, 97, 109, 112>>
                 [] t = "symbol" -> <<115, 121, 109, 98, 111, 108>> [] t = "string" -> <<115, 116, 114, 105, 110, 103>> [] t = "clob" -> <<99, 108, 111, 98>>
                 [] t = "blob" -> <<98, 108, 111, 98>> [] t = "list" -> <<108, 105, 115, 116>> [] t = "sexp" -> <<115, 101, 120, 112>>
                 [] OTHER -> <<115, 116, 114, 117, 99, 116>>
ScalarText(t, v) ==
  IF v = <<>> THEN <<110, 117, 108, 108, 46>> \o TypeText(t)
  ELSE CASE t = "bool" -> IF v[1][1] = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
         [] t = "int" -> Signed(v[1][1], Digits(v[2]))
         [] t = "float" -> FloatText(v[1])
         [] t = "decimal" -> Signed(v[1][1], Digits(v[3])) \o <<100>> \o IntText(v[2][1])
         [] t = "timestamp" -> TimestampText(v)
         [] t = "symbol" -> TokText(v)
         [] t = "string" -> <<34>> \o Escaped(v[1], FALSE) \o <<34>>
         [] t = "clob" -> <<123, 123, 34>> \o Escaped(v[1], TRUE) \o <<34, 125, 125>>
         [] OTHER -> <<123, 123>> \o Base64(v[1]) \o <<125, 125>>
Opening(t) == CASE t = "list" -> <<91>> [] t = "sexp" -> <<40>> [] OTHER -> <<123>>
Closing(t) == CASE t = "list" -> <<93>> [] t = "sexp" -> <<41>> [] OTHER -> <<125>>

\* acc: [out, stk], stk the types of the open containers.  Members of lists and structs are
\* ended by a comma, whatever follows.
TextEncode(evs) ==
  LET Head1(stk, e) == (IF e.f = <<>> THEN <<>> ELSE TokText(e.f) \o <<58>>) \o FoldLeft(LAMBDA x, t : x \o TokText(t) \o <<58, 58>>, <<>>, e.a)
      Tail1(stk) == IF stk # <<>> /\ stk[Len(stk)] # "sexp" THEN <<44>> ELSE <<32>>
      Step(acc, e) ==
        LET n == Len(acc.stk)
        IN CASE e.e = "val" -> [acc EXCEPT !.out = @ \o Head1(acc.stk, e) \o ScalarText(e.t, e.v) \o Tail1(acc.stk)]
             [] e.e = "start" -> [out |-> acc.out \o Head1(acc.stk, e) \o Opening(e.t), stk |-> Append(acc.stk, e.t)]
             [] e.e = "end" -> LET s == SubSeq(acc.stk, 1, n - 1) IN [out |-> acc.out \o Closing(acc.stk[n]) \o Tail1(s), stk |-> s]
             [] e.e = "ivm" -> [acc EXCEPT !.out = @ \o T_ion_1_0 \o <<32>>]
             [] OTHER -> acc
  IN FoldLeft(Step, [out |-> <<>>, stk |-> <<>>], evs).out

Encode(c, evs) == IF c.bin THEN BinEncode(c, evs) ELSE TextEncode(evs)
=============================================================================
