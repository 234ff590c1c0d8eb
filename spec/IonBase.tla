------------------------------ MODULE IonBase ------------------------------
(***************************************************************************)
(* Shared vocabulary of the ion-python specification.                      *)
(*                                                                         *)
(* Values are encoded as sequences of integer sequences, so that any two   *)
(* of them can be compared by TLC whatever their Ion types are:            *)
(*   null       <<>>                                                       *)
(*   bool       <<<<0 or 1>>>>                                             *)
(*   int        <<<<neg>>, decimal digits>>                                *)
(*   float      <<the eight IEEE-754 bytes, most significant first>>       *)
(*   decimal    <<<<neg>>, <<exponent>>, decimal digits>>                  *)
(*   timestamp  <<<<precision>>, <<Y,M,D,h,m,s>>, <<offset known>>,        *)
(*                <<offset minutes>>, <<fraction digits>>, digits>>        *)
(*   string     <<code points>>        clob, blob   <<bytes>>              *)
(*   symbol     a token:                                                   *)
(*     <<<<1>>, code points>>          text is known                       *)
(*     <<<<0>>, <<sid>>>>              only the symbol ID is known         *)
(*     <<<<2>>, name, <<position>>>>   unknown text of an import           *)
(* Events are records [e, t, v, f, a, d]: kind ("val", "start", "end",     *)
(* "ivm", "inc", "eos", "err"), Ion type, value, field name (<<>> or a     *)
(* token), sequence of annotation tokens, depth.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

INF == 1073741824                  \* 2^30: "more than any length there is"

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x

Byte == 0..255

AllIn(s, S) == \A i \in 1..Len(s) : s[i] \in S
Zeros(n) == [i \in 1..n |-> 0]

RECURSIVE StripLeadZeros(_)
StripLeadZeros(s) == IF Len(s) > 0 /\ s[1] = 0 THEN StripLeadZeros(Tail(s)) ELSE s
\* Canonical decimal digits of a natural number: no leading zeros, zero is <<0>>.
CanonDigits(s) == LET t == StripLeadZeros(s) IN IF t = <<>> THEN <<0>> ELSE t
IsZeroDigits(s) == \A i \in 1..Len(s) : s[i] = 0

(***************************************************************************)
(* Big naturals: little-endian limbs, base 10000.                          *)
(***************************************************************************)
BASE == 10000

\* x * m + c for 0 <= m, c <= 100000
BigMulAdd(x, m, c) ==
  LET r == FoldLeft(LAMBDA acc, d : LET q == d * m + acc[2]
                                    IN <<Append(acc[1], q % BASE), q \div BASE>>,
                    <<<<>>, c>>, x)
      RECURSIVE Carry(_, _)
      Carry(s, k) == IF k = 0 THEN s ELSE Carry(Append(s, k % BASE), k \div BASE)
  IN Carry(r[1], r[2])

RECURSIVE BigNorm(_)
BigNorm(x) == IF Len(x) > 0 /\ x[Len(x)] = 0 THEN BigNorm(SubSeq(x, 1, Len(x) - 1)) ELSE x

RECURSIVE BigPow(_, _, _)   \* x * b^n, b small
BigPow(x, b, n) ==
  IF n <= 0 THEN x
  ELSE IF b = 2 /\ n >= 12 THEN BigPow(BigMulAdd(x, 4096, 0), b, n - 12)
  ELSE IF b = 10 /\ n >= 4 THEN BigPow(BigMulAdd(x, 10000, 0), b, n - 4)
  ELSE BigPow(BigMulAdd(x, b, 0), b, n - 1)

\* -1, 0, 1
BigCmp(x0, y0) ==
  LET x == BigNorm(x0)  y == BigNorm(y0)
      RECURSIVE C(_)
      C(i) == IF i = 0 THEN 0 ELSE IF x[i] < y[i] THEN -1 ELSE IF x[i] > y[i] THEN 1 ELSE C(i - 1)
  IN IF Len(x) < Len(y) THEN -1 ELSE IF Len(x) > Len(y) THEN 1 ELSE C(Len(x))

BigOfDigits(ds) == FoldLeft(LAMBDA acc, d : BigMulAdd(acc, 10, d), <<>>, ds)
BigOfBytes(bs) == FoldLeft(LAMBDA acc, b : BigMulAdd(acc, 256, b), <<>>, bs)
BigOfRadix(ds, r) == FoldLeft(LAMBDA acc, d : BigMulAdd(acc, r, d), <<>>, ds)

BigToDigits(x0) ==
  LET x == BigNorm(x0) n == Len(x)
  IN CanonDigits([i \in 1..(4 * n) |->
        LET limb == x[n - ((i - 1) \div 4)]  k == (i - 1) % 4
        IN CASE k = 0 -> limb \div 1000 [] k = 1 -> (limb \div 100) % 10
             [] k = 2 -> (limb \div 10) % 10 [] OTHER -> limb % 10])

BytesToDigits(bs) == BigToDigits(BigOfBytes(bs))
RadixToDigits(ds, r) == IF r = 10 THEN CanonDigits(ds) ELSE BigToDigits(BigOfRadix(ds, r))

\* Small naturals
DigitsVal(ds) == FoldLeft(LAMBDA acc, d : IF acc >= 100000000 THEN INF ELSE acc * 10 + d, 0, ds)
NatDigits(n) == BigToDigits(<<n % BASE, (n \div BASE) % BASE, n \div (BASE * BASE)>>)

(***************************************************************************)
(* UTF-8                                                                   *)
(***************************************************************************)
\* Number of bytes the sequence starting with byte b announces; 0: not a start byte.
Utf8Len(b) == IF b < 128 THEN 1 ELSE IF b >= 194 /\ b <= 223 THEN 2
              ELSE IF b >= 224 /\ b <= 239 THEN 3 ELSE IF b >= 240 /\ b <= 244 THEN 4 ELSE 0
IsCont(b) == b >= 128 /\ b <= 191

\* Decodes bs: [ok, cps, rest]: ok is FALSE when bs is not (a prefix of) UTF-8,
\* rest is the number of bytes of an incomplete last sequence.
Utf8Decode(bs) ==
  LET N == Len(bs)
      Step(acc, b) ==
        \* acc = [ok, out, need, cp, lo, n]: need continuation bytes, minimum cp lo
        IF ~acc.ok THEN acc
        ELSE IF acc.need > 0
        THEN IF ~IsCont(b) THEN [acc EXCEPT !.ok = FALSE]
             ELSE LET cp == acc.cp * 64 + (b - 128)
                  IN IF acc.need = 1
                     THEN IF cp < acc.lo \/ cp > 1114111 \/ (cp >= 55296 /\ cp <= 57343)
                          THEN [acc EXCEPT !.ok = FALSE]
                          ELSE [acc EXCEPT !.out = Append(@, cp), !.need = 0, !.n = 0]
                     ELSE [acc EXCEPT !.cp = cp, !.need = @ - 1, !.n = @ + 1]
        ELSE LET k == Utf8Len(b)
             IN IF k = 0 THEN [acc EXCEPT !.ok = FALSE]
                ELSE IF k = 1 THEN [acc EXCEPT !.out = Append(@, b)]
                ELSE [acc EXCEPT !.need = k - 1, !.n = 1,
                         !.lo = IF k = 2 THEN 128 ELSE IF k = 3 THEN 2048 ELSE 65536,
                         !.cp = IF k = 2 THEN b % 32 ELSE IF k = 3 THEN b % 16 ELSE b % 8]
      r == FoldLeft(Step, [ok |-> TRUE, out |-> <<>>, need |-> 0, cp |-> 0, lo |-> 0, n |-> 0], bs)
  IN [ok |-> r.ok, cps |-> r.out, rest |-> r.n]

Utf8Encode(cps) ==
  FoldLeft(LAMBDA acc, c : acc \o
     (IF c < 128 THEN <<c>>
      ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
      ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
      ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>),
     <<>>, cps)

(***************************************************************************)
(* Floats                                                                  *)
(***************************************************************************)
NAN_BYTES == <<127, 248, 0, 0, 0, 0, 0, 0>>
InfBytes(neg) == <<127 + 128 * neg, 240, 0, 0, 0, 0, 0, 0>>
ZeroFloat(neg) == <<128 * neg, 0, 0, 0, 0, 0, 0, 0>>

F64Exp(b) == (b[1] % 128) * 16 + (b[2] \div 16)
F64FracZero(b) == b[2] % 16 = 0 /\ \A i \in 3..8 : b[i] = 0
IsNan64(b) == F64Exp(b) = 2047 /\ ~F64FracZero(b)
CanonFloat(b) == IF IsNan64(b) THEN NAN_BYTES ELSE b

\* Widening of an IEEE single to a double
F32To64(b) ==
  LET s == b[1] \div 128
      e == (b[1] % 128) * 2 + (b[2] \div 128)
      m == (b[2] % 128) * 65536 + b[3] * 256 + b[4]      \* 23 bits
      Pack(ex, mant) ==                                  \* 11-bit exponent, 23-bit mantissa
        <<s * 128 + ex \div 16, (ex % 16) * 16 + mant \div 524288,
          (mant \div 2048) % 256, (mant \div 8) % 256, (mant % 8) * 32, 0, 0, 0>>
      RECURSIVE Norm(_, _)
      Norm(ex, mant) == IF mant >= 8388608 THEN Pack(ex, mant - 8388608) ELSE Norm(ex - 1, mant * 2)
  IN IF e = 255 THEN IF m = 0 THEN InfBytes(s) ELSE NAN_BYTES
     ELSE IF e = 0 THEN IF m = 0 THEN ZeroFloat(s) ELSE Norm(897, m)
     ELSE Pack(e + 896, m)

\* TRUE iff the double b is what the literal (digits * 10^exp, no leading zeros) rounds to,
\* ties to even: decided exactly, with big integers.
NearestDouble(neg, digits, exp, b) ==
  LET D == BigNorm(BigOfDigits(digits))
      ex == F64Exp(b)
      hid == IF ex = 0 THEN 0 ELSE 16
      mant == BigOfBytes(<<hid + (b[2] % 16), b[3], b[4], b[5], b[6], b[7], b[8]>>)
      even == b[8] % 2 = 0
      k == IF ex = 0 THEN -1074 ELSE ex - 1075           \* value = mant * 2^k
      \* compare digits*10^exp with num*2^p
      Cmp(num, p) ==
        LET l1 == IF exp > 0 THEN BigPow(D, 10, exp) ELSE D
            l2 == IF p < 0 THEN BigPow(l1, 2, -p) ELSE l1
            r1 == IF exp < 0 THEN BigPow(num, 10, -exp) ELSE num
            r2 == IF p > 0 THEN BigPow(r1, 2, p) ELSE r1
        IN BigCmp(l2, r2)
      up == Cmp(BigMulAdd(mant, 2, 1), k - 1)
      \* predecessor midpoint: 2*mant - 1 halves (a power of two has a closer one)
      pow2 == ex > 1 /\ F64FracZero(b)
      low == IF pow2 THEN LET q == BigMulAdd(mant, 4, 0) IN Cmp(<<q[1] - 1>> \o SubSeq(q, 2, Len(q)), k - 2)
             ELSE LET q == BigMulAdd(mant, 2, 0) IN
                  IF q[1] > 0 THEN Cmp(<<q[1] - 1>> \o SubSeq(q, 2, Len(q)), k - 1)
                  ELSE \* borrow
                    LET RECURSIVE Dec(_)
                        Dec(s) == IF s[1] > 0 THEN <<s[1] - 1>> \o Tail(s) ELSE <<BASE - 1>> \o Dec(Tail(s))
                    IN Cmp(Dec(q), k - 1)
      inf == ex = 2047
      \* midpoint between the largest double and 2^1024
      OverCmp == Cmp(BigOfBytes(<<63, 255, 255, 255, 255, 255, 255>>), 970)
      sgn == b[1] \div 128 = neg
  IN /\ sgn
     /\ IF IsNan64(b) THEN FALSE
        ELSE IF D = <<>> THEN ex = 0 /\ F64FracZero(b)
        ELSE IF Len(digits) - 1 + exp >= 310 THEN inf
        ELSE IF Len(digits) + exp <= -324 THEN ex = 0 /\ F64FracZero(b)
        ELSE IF inf THEN OverCmp >= 0
        ELSE IF ex = 0 /\ F64FracZero(b) THEN up <= 0
        ELSE /\ (IF even THEN up <= 0 ELSE up < 0)
             /\ (IF even THEN low >= 0 ELSE low > 0)

(***************************************************************************)
(* Calendar                                                                *)
(***************************************************************************)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == IF m = 2 THEN IF Leap(y) THEN 29 ELSE 28
                  ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
ValidDate(y, m, d) == y \in 1..9999 /\ m \in 1..12 /\ d >= 1 /\ d <= MonthLen(y, m)

\* Moves the minute (Y, M, D, h, mi) by off minutes, |off| < 1440.
AddMinutes(f, off) ==
  LET t == f[4] * 60 + f[5] + off
      dd == IF t < 0 THEN -1 ELSE IF t >= 1440 THEN 1 ELSE 0
      tt == t - dd * 1440
      y == f[1] m == f[2] d == f[3] + dd
      date == IF d = 0 THEN IF m = 1 THEN <<y - 1, 12, 31>> ELSE <<y, m - 1, MonthLen(y, m - 1)>>
              ELSE IF d > MonthLen(y, m) THEN IF m = 12 THEN <<y + 1, 1, 1>> ELSE <<y, m + 1, 1>>
              ELSE <<y, m, d>>
  IN date \o <<tt \div 60, tt % 60, f[6]>>

(***************************************************************************)
(* Events and tokens                                                       *)
(***************************************************************************)
Containers == {"list", "sexp", "struct"}
Ev(e, t, v, f, a, d) == [e |-> e, t |-> t, v |-> v, f |-> f, a |-> a, d |-> d]
SigEv(e) == Ev(e, "", <<>>, <<>>, <<>>, 0)
TextTok(cps) == <<<<1>>, cps>>
SidTok(n) == <<<<0>>, <<n>>>>
ImpTok(name, pos) == <<<<2>>, name, <<pos>>>>
IsTextTok(tok) == tok # <<>> /\ tok[1] = <<1>>

IntVal(neg, digits) == <<<<IF IsZeroDigits(digits) THEN 0 ELSE neg>>, CanonDigits(digits)>>
DecVal(neg, exp, digits) == <<<<neg>>, <<exp>>, CanonDigits(digits)>>
\* ASCII codes used throughout
IonType == {"null", "bool", "int", "float", "decimal", "timestamp", "symbol", "string",
            "clob", "blob", "list", "sexp", "struct"}
=============================================================================
