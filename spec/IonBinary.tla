----------------------------- MODULE IonBinary -----------------------------
(***************************************************************************)
(* The Ion 1.0 binary encoding as a state machine over a byte sequence.    *)
(*                                                                         *)
(* State [pos, stk, ivm]: bytes consumed, stack of open containers         *)
(* [t, end], whether the first version marker was seen.  BinNext gives the *)
(* next thing a reader that has B[1..n] must report:                       *)
(*   k = "ev"   the event ev, and the state after it                       *)
(*   k = "inc"  more bytes are needed for the next event                   *)
(*   k = "eos"  nothing is pending: at the top level, between values       *)
(*   k = "err"  the bytes are not Ion (why names the rule)                 *)
(*   k = "un"   the specification takes no position                        *)
(***************************************************************************)
EXTENDS IonBase

BinInit == [pos |-> 0, stk |-> <<>>, ivm |-> FALSE]

R(k, why) == [k |-> k, why |-> why]
Err(why) == R("err", why)
Inc == R("inc", "")
Un(why) == R("un", why)

\* VarUInt at p (first unread index), not reading beyond lim: [k, v, p].
\* Values above 2^24 saturate to INF.
RECURSIVE VarU(_, _, _, _, _)
VarU(B, n, lim, p, acc) ==
  IF p > lim THEN Err("varuint beyond its container")
  ELSE IF p > n THEN Inc
  ELSE LET b == B[p]
           v == IF acc >= 131072 THEN INF ELSE acc * 128 + (b % 128)
       IN IF b >= 128 THEN [k |-> "ok", v |-> v, p |-> p + 1]
          ELSE VarU(B, n, lim, p + 1, v)

\* Complete slices (all of the bytes are there): UInt, Int, VarInt, VarUInt
\* VarInt in S from index i: [ok, neg, v, p]
SliceVarInt(S, i) ==
  IF i > Len(S) THEN [ok |-> FALSE, neg |-> 0, v |-> 0, p |-> i]
  ELSE LET RECURSIVE Go(_, _)
           Go(j, acc) == IF j > Len(S) THEN [ok |-> FALSE, neg |-> 0, v |-> 0, p |-> j]
                         ELSE LET v == IF acc >= 131072 THEN INF ELSE acc * 128 + (S[j] % 128)
                              IN IF S[j] >= 128 THEN [ok |-> TRUE, neg |-> (S[i] \div 64) % 2, v |-> v, p |-> j + 1]
                                 ELSE Go(j + 1, v)
       IN IF S[i] >= 128 THEN [ok |-> TRUE, neg |-> (S[i] \div 64) % 2, v |-> S[i] % 64, p |-> i + 1]
          ELSE Go(i + 1, S[i] % 64)

SliceVarUInt(S, i) ==
  LET RECURSIVE Go(_, _)
      Go(j, acc) == IF j > Len(S) THEN [ok |-> FALSE, v |-> 0, p |-> j]
                    ELSE LET v == IF acc >= 131072 THEN INF ELSE acc * 128 + (S[j] % 128)
                         IN IF S[j] >= 128 THEN [ok |-> TRUE, v |-> v, p |-> j + 1] ELSE Go(j + 1, v)
  IN Go(i, 0)

\* Int field: sign bit then magnitude
SliceInt(S, i) ==
  LET M == SubSeq(S, i, Len(S))
  IN IF M = <<>> THEN [neg |-> 0, ds |-> <<0>>]
     ELSE [neg |-> M[1] \div 128, ds |-> BytesToDigits(<<M[1] % 128>> \o Tail(M))]

Val(v) == [k |-> "ok", v |-> v]

DecodeDecimal(S) ==
  IF S = <<>> THEN Val(DecVal(0, 0, <<0>>))
  ELSE LET x == SliceVarInt(S, 1)
       IN IF ~x.ok THEN Err("decimal exponent")
          ELSE IF x.v >= INF THEN Un("decimal exponent magnitude")
          ELSE LET c == SliceInt(S, x.p)
               IN Val(DecVal(c.neg, IF x.neg = 1 THEN -x.v ELSE x.v, c.ds))

\* Timestamps: fields are UTC, the value is in local time.
DecodeTimestamp(S) ==
  LET o == SliceVarInt(S, 1)
      unk == o.ok /\ o.neg = 1 /\ o.v = 0
      off == IF o.neg = 1 THEN -o.v ELSE o.v
      RECURSIVE Fields(_, _, _)
      Fields(i, acc, k) == IF k = 0 \/ i > Len(S) THEN [ok |-> TRUE, f |-> acc, p |-> i]
                           ELSE LET x == SliceVarUInt(S, i)
                                IN IF ~x.ok THEN [ok |-> FALSE, f |-> acc, p |-> i]
                                   ELSE Fields(x.p, Append(acc, x.v), k - 1)
      F == Fields(o.p, <<>>, 6)
      nf == Len(F.f)
      y == IF nf >= 1 THEN F.f[1] ELSE 0
      mo == IF nf >= 2 THEN F.f[2] ELSE 1
      da == IF nf >= 3 THEN F.f[3] ELSE 1
      ho == IF nf >= 5 THEN F.f[4] ELSE 0
      mi == IF nf >= 5 THEN F.f[5] ELSE 0
      se == IF nf >= 6 THEN F.f[6] ELSE 0
      utc == <<y, mo, da, ho, mi, se>>
      x == SliceVarInt(S, F.p)                       \* fraction exponent
      c == SliceInt(S, x.p)
      fexp == IF x.neg = 1 THEN -x.v ELSE x.v
      hasf == nf = 6 /\ F.p <= Len(S)
      zero == IsZeroDigits(c.ds)
      digs == -fexp
      \* the fraction written with exactly digs digits
      frac == IF ~hasf \/ fexp >= 0 THEN <<>>
              ELSE IF zero THEN Zeros(Min2(digs, 400))
              ELSE Zeros(digs - Len(c.ds)) \o c.ds
      local == IF unk THEN utc ELSE AddMinutes(utc, off)
      prec == IF nf = 5 THEN 4 ELSE IF nf = 6 THEN 5 ELSE nf
  IN IF Len(S) < 2 THEN Err("timestamp length")
     ELSE IF ~o.ok THEN Err("timestamp offset")
     ELSE IF ~F.ok THEN Err("timestamp field")
     ELSE IF nf = 4 THEN Err("timestamp hour without minute")
     ELSE IF ~ValidDate(y, mo, da) THEN Err("timestamp date")
     ELSE IF ho > 23 \/ mi > 59 \/ se > 59 THEN Err("timestamp time")
     ELSE IF ~unk /\ off # 0 /\ Abs(off) >= 1440 THEN Err("timestamp offset range")
     ELSE IF nf < 6 /\ F.p <= Len(S) THEN Err("timestamp trailing bytes")
     ELSE IF hasf /\ ~x.ok THEN Err("timestamp fraction exponent")
     ELSE IF hasf /\ c.neg = 1 /\ ~zero THEN Err("timestamp negative fraction")
     ELSE IF hasf /\ c.neg = 1 THEN Un("timestamp fraction of minus zero")
     ELSE IF hasf /\ fexp >= 0 /\ ~zero THEN Err("timestamp fraction not below one")
     ELSE IF hasf /\ fexp < 0 /\ ~zero /\ Len(c.ds) > digs THEN Err("timestamp fraction not below one")
     ELSE IF hasf /\ digs > 400 THEN Un("timestamp fraction digits")
     ELSE IF nf <= 3 /\ ~unk THEN Un("timestamp date with an offset")
     ELSE IF local[1] \notin 1..9999 THEN Un("timestamp year range")
     ELSE Val(<<<<prec>>, local,
                IF unk \/ nf <= 3 THEN <<0>> ELSE <<1>>, IF unk \/ nf <= 3 THEN <<0>> ELSE <<off>>,
                <<Len(frac)>>, frac>>)

ScalarName == <<"null", "bool", "int", "int", "float", "decimal", "timestamp", "symbol", "string",
                "clob", "blob", "list", "sexp", "struct">>
TypeOf(T) == ScalarName[T + 1]

\* The value of a scalar of type nibble T, length nibble L, representation S.
DecodeScalar(T, L, S) ==
  CASE T = 1 -> IF L = 0 THEN Val(<<<<0>>>>) ELSE IF L = 1 THEN Val(<<<<1>>>>) ELSE Err("bool")
    [] T = 2 -> Val(<<<<0>>, BytesToDigits(S)>>)
    [] T = 3 -> IF IsZeroDigits(S) THEN Err("negative int zero") ELSE Val(<<<<1>>, BytesToDigits(S)>>)
    [] T = 4 -> IF L = 0 THEN Val(<<ZeroFloat(0)>>)
                ELSE IF L = 4 THEN Val(<<CanonFloat(F32To64(S))>>)
                ELSE IF L = 8 THEN Val(<<CanonFloat(S)>>) ELSE Err("float length")
    [] T = 5 -> DecodeDecimal(S)
    [] T = 6 -> DecodeTimestamp(S)
    [] T = 7 -> IF Len(StripLeadZeros(S)) > 3 THEN Un("large symbol id")
                ELSE Val(SidTok(FoldLeft(LAMBDA a, b : a * 256 + b, 0, StripLeadZeros(S))))
    [] T = 8 -> LET u == Utf8Decode(S) IN IF u.ok /\ u.rest = 0 THEN Val(<<u.cps>>) ELSE Err("string is not UTF-8")
    [] OTHER -> Val(<<S>>)

\* Reads the value whose descriptor is at p, inside limit lim; f, a are its field
\* name and annotations; wend is 0 or where the annotation wrapper requires it to end.
ValueAt(B, n, st, p, lim, f, a, wend) ==
  IF p > n THEN IF p > lim THEN Err("missing value") ELSE Inc
  ELSE LET T == B[p] \div 16
           L == B[p] % 16
           d == Len(st.stk)
           len == IF T = 1 \/ L = 15 THEN [k |-> "ok", v |-> 0, p |-> p + 1]
                  ELSE IF L = 14 \/ (T = 13 /\ L = 1) THEN VarU(B, n, lim, p + 1, 0)
                  ELSE [k |-> "ok", v |-> L, p |-> p + 1]
       IN IF T = 4 /\ L \notin {0, 4, 8, 15} THEN Err("float length")
          ELSE IF T = 1 /\ L \notin {0, 1, 15} THEN Err("bool")
          ELSE IF T = 3 /\ L = 0 THEN Err("negative int zero")
          ELSE IF T = 15 THEN Err("type descriptor")
          ELSE IF len.k # "ok" THEN len
          ELSE LET q == len.p            \* first byte of the representation
                   e == IF len.v >= INF THEN INF ELSE q + len.v    \* first byte after it
               IN IF e - 1 > lim THEN Err("value overruns its container")
                  ELSE IF wend # 0 /\ e # wend THEN Err("annotation wrapper length")
                  ELSE IF T = 13 /\ L = 1 /\ len.v < 2 THEN Err("empty ordered struct")
                  ELSE IF T >= 14 THEN Err("type descriptor")
                  ELSE IF L = 15
                  THEN [k |-> "ev", ev |-> Ev("val", TypeOf(T), <<>>, f, a, d),
                        st |-> [st EXCEPT !.pos = q - 1]]
                  ELSE IF T >= 11
                  THEN IF e > INF - 1 /\ d > 0 THEN Err("value overruns its container")
                       ELSE [k |-> "ev", ev |-> Ev("start", TypeOf(T), <<>>, f, a, d),
                        st |-> [st EXCEPT !.pos = q - 1, !.stk = Append(@, [t |-> TypeOf(T), end |-> e - 1])]]
                  ELSE IF T = 6 /\ len.v < 2 THEN Err("timestamp length")
                  ELSE IF e - 1 > n THEN Inc
                  ELSE LET v == DecodeScalar(T, L, SubSeq(B, q, e - 1))
                       IN IF v.k = "err" THEN [k |-> "err", why |-> v.why,
                                               \* a reader may defer this until the value is looked at
                                               lazy |-> Ev("val", TypeOf(T), <<>>, f, a, d)]
                          ELSE IF v.k = "un" THEN v
                          ELSE [k |-> "ev", ev |-> Ev("val", TypeOf(T), v.v, f, a, d),
                                st |-> [st EXCEPT !.pos = e - 1]]

RECURSIVE AnnList(_, _, _, _, _)
AnnList(B, n, lim, p, acc) ==
  IF p > lim THEN [k |-> "ok", a |-> acc]
  ELSE LET x == VarU(B, n, lim, p, 0)
       IN IF x.k # "ok" THEN x
          ELSE IF x.v >= INF THEN Un("large symbol id")
          ELSE AnnList(B, n, lim, x.p, Append(acc, SidTok(x.v)))

\* Annotation wrapper at p
WrapperAt(B, n, st, p, lim, f) ==
  LET L == B[p] % 16
      len == IF L = 14 THEN VarU(B, n, lim, p + 1, 0) ELSE [k |-> "ok", v |-> L, p |-> p + 1]
  IN IF L \in {1, 2, 15} THEN Err("annotation wrapper descriptor")
     ELSE IF len.k # "ok" THEN len
     ELSE IF len.v < 3 THEN Err("annotation wrapper too short")
     ELSE LET e == IF len.v >= INF THEN INF ELSE len.p + len.v
          IN IF e - 1 > lim THEN Err("annotation wrapper overruns its container")
             ELSE LET al == VarU(B, n, e - 1, len.p, 0)
                  IN IF al.k # "ok" THEN al
                     ELSE IF al.v = 0 THEN Err("annotation wrapper without annotations")
                     ELSE IF al.v >= INF \/ al.p + al.v > e - 1 THEN Err("annotations overrun the wrapper")
                     ELSE LET an == AnnList(B, n, al.p + al.v - 1, al.p, <<>>)
                              vp == al.p + al.v
                          IN IF an.k # "ok" THEN an
                             ELSE IF vp > n THEN Inc
                             ELSE IF B[vp] \div 16 = 14 THEN Err("annotation wrapper in annotation wrapper")
                             ELSE IF B[vp] \div 16 = 0 /\ B[vp] # 15 THEN Err("annotated NOP pad")
                             ELSE ValueAt(B, n, st, vp, e - 1, f, an.a, e)

RECURSIVE BinNextAt(_, _, _, _)
BinNextAt(B, n, st, p) ==
  LET d == Len(st.stk)
      top == d = 0
      fr == st.stk[d]
      lim == IF top THEN INF ELSE fr.end
  IN IF ~top /\ p > lim
     THEN IF p > lim + 1 THEN Err("value overruns its container")
          ELSE [k |-> "ev", ev |-> Ev("end", fr.t, <<>>, <<>>, <<>>, d - 1),
                st |-> [st EXCEPT !.pos = p - 1, !.stk = SubSeq(@, 1, d - 1)]]
     ELSE IF top /\ p > n THEN R("eos", "")
     ELSE IF top /\ ~st.ivm /\ B[p] # 224 THEN Err("no version marker")
     ELSE LET fl == IF ~top /\ fr.t = "struct" THEN VarU(B, n, lim, p, 0) ELSE [k |-> "ok", v |-> 0, p |-> p]
          IN IF fl.k # "ok" THEN fl
             ELSE IF fl.v >= INF THEN Un("large symbol id")
             ELSE LET q == fl.p
                      f == IF ~top /\ fr.t = "struct" THEN SidTok(fl.v) ELSE <<>>
                  IN IF q > lim THEN Err("field name without a value")
                     ELSE IF q > n THEN Inc
                     ELSE IF B[q] = 224
                     THEN IF ~top THEN Err("version marker inside a container")
                          ELSE IF n < q + 3
                          THEN \* a wrong byte that is already there may be reported now or later
                               IF (n >= q + 1 /\ B[q + 1] # 1) \/ (n >= q + 2 /\ B[q + 2] # 0) THEN Err("version marker") ELSE Inc
                          ELSE IF SubSeq(B, q, q + 3) # <<224, 1, 0, 234>> THEN Err("version marker")
                          ELSE [k |-> "ev", ev |-> Ev("ivm", "", <<<<1, 0>>>>, <<>>, <<>>, 0),
                                st |-> [st EXCEPT !.pos = q + 3, !.ivm = TRUE]]
                     ELSE IF B[q] \div 16 = 0 /\ B[q] # 15          \* NOP pad
                     THEN LET len == IF B[q] = 14 THEN VarU(B, n, lim, q + 1, 0)
                                     ELSE [k |-> "ok", v |-> B[q], p |-> q + 1]
                          IN IF len.k # "ok" THEN len
                             ELSE IF len.v >= INF \/ len.p + len.v - 1 > lim
                                  THEN IF top THEN Inc ELSE Err("NOP pad overruns its container")
                             ELSE IF len.p + len.v - 1 > n THEN Inc
                             ELSE BinNextAt(B, n, st, len.p + len.v)
                     ELSE IF B[q] \div 16 = 14 THEN WrapperAt(B, n, st, q, lim, f)
                     ELSE ValueAt(B, n, st, q, lim, f, <<>>, 0)

BinNext(B, n, st) == BinNextAt(B, n, st, st.pos + 1)

\* SKIP: the end of the innermost open container, without looking at its contents.
BinSkip(B, n, st) ==
  LET d == Len(st.stk) fr == st.stk[d]
  IN IF fr.end > n THEN Inc
     ELSE [k |-> "ev", ev |-> Ev("end", fr.t, <<>>, <<>>, <<>>, d - 1),
           st |-> [st EXCEPT !.pos = fr.end, !.stk = SubSeq(@, 1, d - 1)]]

\* The whole document: events, and how it ends ("eos", "inc", "err", "un").
BinDecode(B) ==
  LET n == Len(B)
      RECURSIVE Go(_, _)
      Go(st, acc) == LET r == BinNext(B, n, st)
                     IN IF r.k = "ev" THEN Go(r.st, Append(acc, r.ev))
                        ELSE [evs |-> acc, k |-> r.k, why |-> r.why]
  IN Go(BinInit, <<>>)
=============================================================================
