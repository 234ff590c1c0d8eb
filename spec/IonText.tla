------------------------------ MODULE IonText ------------------------------
(***************************************************************************)
(* The Ion 1.0 text encoding as a state machine over code points.          *)
(*                                                                         *)
(* X = [c, n, eof]: the document c, of which c[1..n] has been received;    *)
(* eof tells that nothing follows.  State [pos, stk]: characters consumed, *)
(* stack of open containers [t, s] with s in "first", "comma" (a value or  *)
(* the closing delimiter may come), "value" (a comma or the closer must).  *)
(* TextNext gives the next thing to report, as BinNext does; "inc" when    *)
(* the characters received do not settle it, "eos" at the top level when   *)
(* nothing but whitespace and comments is left.                            *)
(***************************************************************************)
EXTENDS IonBase

TextInit == [pos |-> 0, stk |-> <<>>]

TR(k, why) == [k |-> k, why |-> why]
TErr(why) == TR("err", why)
TUn(why) == TR("un", why)
TInc == TR("inc", "")

EOFC == -1      \* past the end of the document
UNK == -2       \* not received yet
Ch(X, p) == IF p <= X.n THEN X.c[p] ELSE IF X.eof THEN EOFC ELSE UNK

Digit == 48..57
HexDigit == Digit \cup (65..70) \cup (97..102)
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Ws == {32, 9, 10, 11, 12, 13}
Newline == {10, 13}
IdStart == (65..90) \cup (97..122) \cup {95, 36}
IdPart == IdStart \cup Digit
OpChar == {33, 35, 37, 38, 42, 43, 45, 46, 47, 59, 60, 61, 62, 63, 64, 94, 96, 124, 126}
\* what may follow a number, timestamp
NumStop == Ws \cup {123, 125, 91, 93, 40, 41, 44, 34, 39, EOFC}

STR(s) == s
\* spelled-out keywords, as code points
K_null == <<110, 117, 108, 108>>
K_true == <<116, 114, 117, 101>>
K_false == <<102, 97, 108, 115, 101>>
K_nan == <<110, 97, 110>>
K_inf == <<105, 110, 102>>
TypeNames == <<
  <<"null", K_null>>,
  <<"bool", <<98, 111, 111, 108>>>>,
  <<"int", <<105, 110, 116>>>>,
  <<"float", <<102, 108, 111, 97, 116>>>>,
  <<"decimal", <<100, 101, 99, 105, 109, 97, 108>>>>,
  <<"timestamp", <<116, 105, 109, 101, 115, 116, 97, 109, 112>>>>,
  <<"symbol", <<115, 121, 109, 98, 111, 108>>>>,
  <<"string", <<115, 116, 114, 105, 110, 103>>>>,
  <<"clob", <<99, 108, 111, 98>>>>,
  <<"blob", <<98, 108, 111, 98>>>>,
  <<"list", <<108, 105, 115, 116>>>>,
  <<"sexp", <<115, 101, 120, 112>>>>,
  <<"struct", <<115, 116, 114, 117, 99, 116>>>> >>
Keyword(cps) == cps \in {K_null, K_true, K_false, K_nan}

(***************************************************************************)
(* Whitespace and comments                                                 *)
(***************************************************************************)
RECURSIVE LineEnd(_, _)
LineEnd(X, p) == IF Ch(X, p) \in Newline \cup {EOFC, UNK} THEN p ELSE LineEnd(X, p + 1)
RECURSIVE BlockEnd(_, _)    \* index after */, 0 when not there
BlockEnd(X, p) == IF p + 1 > X.n THEN 0 ELSE IF X.c[p] = 42 /\ X.c[p + 1] = 47 THEN p + 2 ELSE BlockEnd(X, p + 1)

\* [k, p]: "ok" first significant index (may be EOF); "inc"; "err"
RECURSIVE SkipWs(_, _)
SkipWs(X, p) ==
  LET c == Ch(X, p)
  IN IF c \in Ws THEN SkipWs(X, p + 1)
     ELSE IF c = UNK THEN TInc
     ELSE IF c = 47
     THEN LET c2 == Ch(X, p + 1)
          IN IF c2 = UNK THEN TInc
             ELSE IF c2 = 47 THEN LET q == LineEnd(X, p + 2) IN IF Ch(X, q) = UNK THEN TInc ELSE SkipWs(X, q)
             ELSE IF c2 = 42 THEN LET q == BlockEnd(X, p + 2)
                                  IN IF q = 0 THEN IF X.eof THEN TErr("unterminated comment") ELSE TInc
                                     ELSE SkipWs(X, q)
             ELSE [k |-> "ok", p |-> p, why |-> ""]
     ELSE [k |-> "ok", p |-> p, why |-> ""]

RECURSIVE OnlyWs(_, _)      \* plain whitespace, no comments (inside lobs)
OnlyWs(X, p) == IF Ch(X, p) \in Ws THEN OnlyWs(X, p + 1) ELSE p

(***************************************************************************)
(* Quoted text: strings, symbols, clobs                                    *)
(***************************************************************************)
\* Hex escape of k digits at p: [k, v]
RECURSIVE HexEsc(_, _, _, _)
HexEsc(X, p, k, acc) ==
  IF k = 0 THEN [k |-> "ok", v |-> acc, p |-> p]
  ELSE LET c == Ch(X, p)
       IN IF c = UNK THEN TInc
          ELSE IF c \notin HexDigit THEN TErr("hex escape")
          ELSE HexEsc(X, p + 1, k - 1, IF acc >= 16777216 THEN 99999999 ELSE acc * 16 + HexVal(c))

SimpleEsc(c) == CASE c = 48 -> 0 [] c = 97 -> 7 [] c = 98 -> 8 [] c = 116 -> 9 [] c = 110 -> 10
                  [] c = 102 -> 12 [] c = 114 -> 13 [] c = 118 -> 11
                  [] c \in {34, 39, 63, 92, 47} -> c [] OTHER -> -1

\* One escape, p at the character after the backslash: [k, p, v] with v a sequence
\* of code points (empty for an escaped newline).
Escape(X, p, clob) ==
  LET c == Ch(X, p)
  IN IF c = UNK THEN TInc
     ELSE IF c = EOFC THEN TErr("unterminated text")
     ELSE IF SimpleEsc(c) >= 0 THEN [k |-> "ok", p |-> p + 1, v |-> <<SimpleEsc(c)>>]
     ELSE IF c = 10 THEN [k |-> "ok", p |-> p + 1, v |-> <<>>]
     ELSE IF c = 13 THEN IF Ch(X, p + 1) = UNK THEN TInc
                         ELSE IF Ch(X, p + 1) = 10 THEN [k |-> "ok", p |-> p + 2, v |-> <<>>]
                         ELSE [k |-> "ok", p |-> p + 1, v |-> <<>>]
     ELSE IF c = 120 THEN LET h == HexEsc(X, p + 1, 2, 0) IN IF h.k = "ok" THEN [k |-> "ok", p |-> h.p, v |-> <<h.v>>] ELSE h
     ELSE IF c \in {117, 85} /\ ~clob
     THEN LET h == HexEsc(X, p + 1, IF c = 117 THEN 4 ELSE 8, 0)
          IN IF h.k # "ok" THEN h
             ELSE IF h.v > 1114111 THEN TErr("escape beyond Unicode")
             ELSE IF h.v >= 56320 /\ h.v <= 57343 THEN TUn("lone surrogate")
             ELSE IF h.v >= 55296 /\ h.v <= 56319
             THEN \* must be followed by an escaped low surrogate
                  LET c1 == Ch(X, h.p) c2 == Ch(X, h.p + 1)
                  IN IF c1 = UNK \/ (c1 = 92 /\ c2 = UNK) THEN TInc
                     ELSE IF c1 # 92 \/ c2 \notin {117, 85} THEN TUn("lone surrogate")
                     ELSE LET g == HexEsc(X, h.p + 2, IF c2 = 117 THEN 4 ELSE 8, 0)
                          IN IF g.k # "ok" THEN (IF g.k = "inc" THEN g ELSE TErr(g.why))
                             ELSE IF g.v >= 56320 /\ g.v <= 57343 /\ c = 117 /\ c2 = 117
                             THEN [k |-> "ok", p |-> g.p, v |-> <<65536 + (h.v - 55296) * 1024 + (g.v - 56320)>>]
                             ELSE TUn("lone surrogate")
             ELSE [k |-> "ok", p |-> h.p, v |-> <<h.v>>]
     ELSE TErr("escape")

\* A quoted segment, p after the opening delimiter; q the quote; long for '''; clob restricts
\* to ASCII.  [k, p, v]: p after the closing delimiter.
RECURSIVE Quoted(_, _, _, _, _, _)
Quoted(X, p, q, long, clob, acc) ==
  LET c == Ch(X, p)
  IN IF c = UNK THEN TInc
     ELSE IF c = EOFC THEN TErr("unterminated text")
     ELSE IF c = q /\ ~long THEN [k |-> "ok", p |-> p + 1, v |-> acc]
     ELSE IF c = 39 /\ long
     THEN IF Ch(X, p + 1) = UNK THEN TInc
          ELSE IF Ch(X, p + 1) # 39 THEN Quoted(X, p + 1, q, long, clob, Append(acc, 39))
          ELSE IF Ch(X, p + 2) = UNK THEN TInc
          ELSE IF Ch(X, p + 2) = 39 THEN [k |-> "ok", p |-> p + 3, v |-> acc]
          ELSE Quoted(X, p + 2, q, long, clob, acc \o <<39, 39>>)
     ELSE IF c = 92
     THEN LET e == Escape(X, p + 1, clob)
          IN IF e.k # "ok" THEN e ELSE Quoted(X, e.p, q, long, clob, acc \o e.v)
     ELSE IF c \in Newline
     THEN IF ~long THEN TErr("newline in quoted text")
          ELSE IF c = 13 /\ Ch(X, p + 1) = UNK THEN TInc
          ELSE IF c = 13 /\ Ch(X, p + 1) = 10 THEN Quoted(X, p + 2, q, long, clob, Append(acc, 10))
          ELSE Quoted(X, p + 1, q, long, clob, Append(acc, 10))
     ELSE IF c < 32 /\ c \notin Ws THEN TErr("control character in quoted text")
     ELSE IF clob /\ c > 127 THEN TErr("clob is not ASCII")
     ELSE IF c = 127 THEN TUn("delete character")
     ELSE IF c >= 55296 /\ c <= 57343 THEN TUn("lone surrogate")
     ELSE Quoted(X, p + 1, q, long, clob, Append(acc, c))

\* '''a''' '''b''' ...: p after the first '''.  Segments may be separated by
\* whitespace, and by comments outside of clobs.
RECURSIVE LongSegments(_, _, _, _)
LongSegments(X, p, clob, acc) ==
  LET s == Quoted(X, p, 39, TRUE, clob, <<>>)
  IN IF s.k # "ok" THEN s
     ELSE LET w == IF clob THEN [k |-> "ok", p |-> OnlyWs(X, s.p)] ELSE SkipWs(X, s.p)
          IN IF w.k # "ok" THEN w
             ELSE LET c1 == Ch(X, w.p) c2 == Ch(X, w.p + 1) c3 == Ch(X, w.p + 2)
                  IN IF c1 = UNK \/ (c1 = 39 /\ (c2 = UNK \/ (c2 = 39 /\ c3 = UNK))) THEN TInc
                     \* the first character of a quoted symbol settles that it is one
                     ELSE IF ~clob /\ c1 = 39 /\ c2 = 92 /\ Escape(X, w.p + 2, FALSE).k = "inc" THEN TInc
                     ELSE IF ~clob /\ c1 = 39 /\ c2 = 13 /\ c3 = UNK THEN TInc
                     ELSE IF c1 = 39 /\ c2 = 39 /\ c3 = 39
                     THEN LongSegments(X, w.p + 3, clob, acc \o s.v)
                     ELSE [k |-> "ok", p |-> s.p, v |-> acc \o s.v]

IsTriple(X, p) == Ch(X, p) = 39 /\ Ch(X, p + 1) = 39 /\ Ch(X, p + 2) = 39

(***************************************************************************)
(* Identifiers                                                             *)
(***************************************************************************)
RECURSIVE IdEnd(_, _)
IdEnd(X, p) == IF Ch(X, p) \in IdPart THEN IdEnd(X, p + 1) ELSE p

\* $ followed by digits only is a symbol ID
IdToken(cps) ==
  IF Len(cps) >= 2 /\ cps[1] = 36 /\ AllIn(Tail(cps), Digit)
  THEN SidTok(DigitsVal([i \in 1..(Len(cps) - 1) |-> cps[i + 1] - 48]))
  ELSE TextTok(cps)

\* $ion_X_Y
VersionMarkerLike(cps) ==
  /\ Len(cps) >= 8 /\ SubSeq(cps, 1, 5) = <<36, 105, 111, 110, 95>>
  /\ \E k \in 7..(Len(cps) - 1) : /\ cps[k] = 95
                                  /\ AllIn(SubSeq(cps, 6, k - 1), Digit)
                                  /\ AllIn(SubSeq(cps, k + 1, Len(cps)), Digit)
IVM10 == <<36, 105, 111, 110, 95, 49, 95, 48>>

(***************************************************************************)
(* Numbers and timestamps: the run of characters up to a terminator        *)
(***************************************************************************)
\* The token at p runs to the first NumStop character, or to a comment.
RECURSIVE NumEnd(_, _)
NumEnd(X, p) ==
  LET c == Ch(X, p)
  IN IF c = UNK THEN TInc
     ELSE IF c \in NumStop THEN [k |-> "ok", p |-> p]
     ELSE IF c = 47 THEN LET c2 == Ch(X, p + 1) IN
          IF c2 = UNK THEN TInc ELSE IF c2 \in {47, 42} THEN [k |-> "ok", p |-> p] ELSE TErr("number followed by /")
     ELSE NumEnd(X, p + 1)

\* digits with single underscores between them
GoodDigits(s, S) ==
  /\ s # <<>> /\ s[1] \in S /\ s[Len(s)] \in S
  /\ \A i \in 1..Len(s) : s[i] \in S \/ (s[i] = 95 /\ s[i - 1] \in S /\ s[i + 1] \in S)
Digs(s) == LET t == SelectSeq(s, LAMBDA c : c # 95) IN [i \in 1..Len(t) |-> HexVal(t[i])]
IndexIn(s, S) == IF \E i \in 1..Len(s) : s[i] \in S THEN CHOOSE i \in 1..Len(s) : s[i] \in S /\ \A j \in 1..(i - 1) : s[j] \notin S ELSE 0

TVal(t, v) == [k |-> "ok", t |-> t, v |-> v]
\* A float literal stands for the set of doubles it rounds to: <<<<neg>>, <<exp>>, digits>>
\* under the type "float", told from the IEEE form by its length.
FloatLit(neg, exp, ds) == <<<<neg>>, <<exp>>, CanonDigits(ds)>>

NumberOf(tok) ==
  LET neg == IF tok[1] = 45 THEN 1 ELSE 0
      u == IF neg = 1 THEN Tail(tok) ELSE tok
      lead == Len(u) >= 2 /\ u[1] = 48
      radix == IF lead /\ u[2] \in {120, 88} THEN 16 ELSE IF lead /\ u[2] \in {98, 66} THEN 2 ELSE 10
  IN IF u = <<>> \/ u[1] \notin Digit THEN TErr("number")
     ELSE IF radix # 10
     THEN LET b == SubSeq(u, 3, Len(u))
          IN IF GoodDigits(b, IF radix = 16 THEN HexDigit ELSE {48, 49})
             THEN TVal("int", IntVal(neg, RadixToDigits(Digs(b), radix)))
             ELSE TErr("number")
     ELSE LET x == IndexIn(u, {69, 101, 68, 100})
              mant == IF x = 0 THEN u ELSE SubSeq(u, 1, x - 1)
              expo == IF x = 0 THEN <<>> ELSE SubSeq(u, x + 1, Len(u))
              dot == IndexIn(mant, {46})
              ip == IF dot = 0 THEN mant ELSE SubSeq(mant, 1, dot - 1)
              fp == IF dot = 0 THEN <<>> ELSE SubSeq(mant, dot + 1, Len(mant))
              eneg == expo # <<>> /\ expo[1] = 45
              ed == IF expo # <<>> /\ expo[1] \in {43, 45} THEN Tail(expo) ELSE expo
              ev == DigitsVal([i \in 1..Len(ed) |-> ed[i] - 48])
              ds == Digs(ip) \o Digs(fp)
              exp == (IF eneg THEN -ev ELSE ev) - Len(Digs(fp))
          IN IF ~GoodDigits(ip, Digit) \/ (ip[1] = 48 /\ Len(ip) > 1) THEN TErr("number")
             ELSE IF fp # <<>> /\ ~GoodDigits(fp, Digit) THEN TErr("number")
             ELSE IF x # 0 /\ ed # <<>> /\ AllIn(ed, Digit \cup {95}) /\ ~AllIn(ed, Digit) THEN TUn("underscore in exponent")
             ELSE IF x # 0 /\ (ed = <<>> \/ ~AllIn(ed, Digit)) THEN TErr("number")
             ELSE IF x # 0 /\ ev > 100000000 THEN TUn("huge exponent")
             ELSE IF x # 0 /\ u[x] \in {69, 101} THEN TVal("float", FloatLit(neg, exp, ds))
             ELSE IF x = 0 /\ dot = 0 THEN TVal("int", IntVal(neg, ds))
             ELSE TVal("decimal", DecVal(neg, exp, ds))

Num2(s, i) == (s[i] - 48) * 10 + (s[i + 1] - 48)
\* Is position i..i+k-1 of s all digits
DigsAt(s, i, k) == i + k - 1 <= Len(s) /\ \A j \in i..(i + k - 1) : s[j] \in Digit
At(s, i, c) == i <= Len(s) /\ s[i] = c

TimestampOf(s) ==
  LET y == Num2(s, 1) * 100 + Num2(s, 3)
      N == Len(s)
      D(prec, f) == IF ValidDate(f[1], f[2], f[3])
                    THEN TVal("timestamp", <<<<prec>>, f, <<0>>, <<0>>, <<0>>, <<>>>>) ELSE TErr("timestamp date")
      mo == Num2(s, 6) da == Num2(s, 9) h == Num2(s, 12) mi == Num2(s, 15) se == Num2(s, 18)
      RECURSIVE DEnd(_)
      DEnd(i) == IF i <= N /\ s[i] \in Digit THEN DEnd(i + 1) ELSE i
      hassec == At(s, 17, 58)
      hasfrac == hassec /\ At(s, 20, 46)
      fe == IF hasfrac THEN DEnd(21) ELSE 20
      o == IF ~hassec THEN 17 ELSE fe                     \* where the offset starts
      fr == IF hasfrac THEN [i \in 1..(fe - 21) |-> s[20 + i] - 48] ELSE <<>>
      zulu == At(s, o, 90) /\ N = o
      num == o <= N /\ s[o] \in {43, 45} /\ DigsAt(s, o + 1, 2) /\ At(s, o + 3, 58) /\ DigsAt(s, o + 4, 2) /\ N = o + 5
      oh == Num2(s, o + 1) om == Num2(s, o + 4)
      ov == (oh * 60 + om) * (IF s[o] = 45 THEN -1 ELSE 1)
      unk == num /\ s[o] = 45 /\ ov = 0
  IN IF ~DigsAt(s, 1, 4) THEN TErr("timestamp")
     ELSE IF At(s, 5, 84) /\ N = 5 THEN D(1, <<y, 1, 1, 0, 0, 0>>)
     ELSE IF ~(At(s, 5, 45) /\ DigsAt(s, 6, 2)) THEN TErr("timestamp")
     ELSE IF At(s, 8, 84) /\ N = 8 THEN D(2, <<y, mo, 1, 0, 0, 0>>)
     ELSE IF ~(At(s, 8, 45) /\ DigsAt(s, 9, 2)) THEN TErr("timestamp")
     ELSE IF N = 10 \/ (N = 11 /\ s[11] = 84) THEN D(3, <<y, mo, da, 0, 0, 0>>)
     ELSE IF ~(At(s, 11, 84) /\ DigsAt(s, 12, 2) /\ At(s, 14, 58) /\ DigsAt(s, 15, 2)) THEN TErr("timestamp")
     ELSE IF hassec /\ ~DigsAt(s, 18, 2) THEN TErr("timestamp")
     ELSE IF hasfrac /\ fe = 21 THEN TErr("timestamp")
     ELSE IF ~zulu /\ ~num THEN TErr("timestamp")
     ELSE IF ~ValidDate(y, mo, da) THEN TErr("timestamp date")
     ELSE IF h > 23 \/ mi > 59 \/ (hassec /\ se > 59) THEN TErr("timestamp time")
     ELSE IF num /\ (oh > 23 \/ om > 59) THEN TErr("timestamp offset")
     ELSE TVal("timestamp", <<<<IF hassec THEN 5 ELSE 4>>, <<y, mo, da, h, mi, IF hassec THEN se ELSE 0>>,
                              <<IF unk THEN 0 ELSE 1>>, <<IF zulu \/ unk THEN 0 ELSE ov>>, <<Len(fr)>>, fr>>)

\* A token that starts with four digits then - or T is a timestamp
NumericToken(tok) ==
  IF DigsAt(tok, 1, 4) /\ Len(tok) >= 5 /\ tok[5] \in {45, 84} THEN TimestampOf(tok) ELSE NumberOf(tok)

(***************************************************************************)
(* Lobs: p after {{                                                        *)
(***************************************************************************)
B64(c) == IF c >= 65 /\ c <= 90 THEN c - 65 ELSE IF c >= 97 /\ c <= 122 THEN c - 71
          ELSE IF c \in Digit THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
RECURSIVE BlobBody(_, _, _)
BlobBody(X, p, acc) ==
  LET c == Ch(X, p)
  IN IF c = UNK THEN TInc
     ELSE IF c = EOFC THEN TErr("unterminated blob")
     ELSE IF c \in Ws THEN BlobBody(X, p + 1, acc)
     ELSE IF c = 125 THEN [k |-> "ok", p |-> p, v |-> acc]
     ELSE IF B64(c) >= 0 \/ c = 61 THEN BlobBody(X, p + 1, Append(acc, c))
     ELSE TErr("blob character")

BlobBytes(s) ==   \* s: base64 characters and padding
  LET n == Len(s)
      pad == IF n >= 1 /\ s[n] = 61 THEN IF n >= 2 /\ s[n - 1] = 61 THEN 2 ELSE 1 ELSE 0
      quad(i) == LET g(j) == IF s[4 * (i - 1) + j] = 61 THEN 0 ELSE B64(s[4 * (i - 1) + j])
                     v == ((g(1) * 64 + g(2)) * 64 + g(3)) * 64 + g(4)
                 IN <<v \div 65536, (v \div 256) % 256, v % 256>>
      all == FoldLeft(LAMBDA a, i : a \o quad(i), <<>>, [i \in 1..(n \div 4) |-> i])
      trail == \* bits thrown away by the padding
        (pad = 1 /\ B64(s[n - 1]) % 4 # 0) \/ (pad = 2 /\ B64(s[n - 2]) % 16 # 0)
  IN IF n % 4 # 0 \/ (\E i \in 1..(n - pad) : s[i] = 61) THEN TErr("blob padding")
     ELSE IF trail THEN TUn("blob trailing bits")
     ELSE TVal("blob", <<SubSeq(all, 1, Len(all) - pad)>>)

LobClose(X, p, r) ==   \* expects }} after whitespace
  LET q == OnlyWs(X, p) c1 == Ch(X, q) c2 == Ch(X, q + 1)
  IN IF c1 = UNK THEN TInc ELSE IF c1 # 125 THEN TErr("lob not closed")
     ELSE IF c2 = UNK THEN TInc ELSE IF c2 # 125 THEN TErr("lob not closed")
     ELSE [k |-> "ok", t |-> r.t, v |-> r.v, p |-> q + 2]

LobAt(X, p) ==
  LET q == OnlyWs(X, p) c == Ch(X, q)
  IN IF c = UNK THEN TInc
     ELSE IF c = 34
     THEN LET s == Quoted(X, q + 1, 34, FALSE, TRUE, <<>>)
          IN IF s.k # "ok" THEN s ELSE LobClose(X, s.p, TVal("clob", <<s.v>>))
     ELSE IF c = 39
     THEN IF Ch(X, q + 1) = UNK \/ (Ch(X, q + 1) = 39 /\ Ch(X, q + 2) = UNK) THEN TInc
          ELSE IF ~IsTriple(X, q) THEN TErr("quoted symbol in a lob")
          ELSE LET s == LongSegments(X, q + 3, TRUE, <<>>)
               IN IF s.k # "ok" THEN s ELSE LobClose(X, s.p, TVal("clob", <<s.v>>))
     ELSE LET b == BlobBody(X, q, <<>>)
          IN IF b.k # "ok" THEN b
             ELSE LET r == BlobBytes(b.v)
                      z == LobClose(X, b.p, TVal("blob", <<>>))
                  IN IF r.k = "err" /\ z.k = "ok" THEN [k |-> "err", why |-> r.why, p |-> z.p]
                     ELSE IF r.k # "ok" THEN r ELSE LobClose(X, b.p, r)

(***************************************************************************)
(* Values                                                                  *)
(***************************************************************************)
\* null.type: the type name at p (after the dot)
NullType(X, p) ==
  LET e == IdEnd(X, p) w == SubSeq(X.c, p, e - 1)
  IN IF Ch(X, e) = UNK THEN TInc
     ELSE LET M == {i \in 1..Len(TypeNames) : TypeNames[i][2] = w}
          IN IF M = {} THEN TErr("null type")
             ELSE [k |-> "ok", t |-> TypeNames[CHOOSE i \in M : TRUE][1], v |-> <<>>, p |-> e]

RECURSIVE OpEnd(_, _)
OpEnd(X, p) == IF Ch(X, p) \in OpChar THEN OpEnd(X, p + 1) ELSE p

Advance(X, st, p) == [st EXCEPT !.pos = p - 1]
\* the state after a value was read in the current container
AfterValue(st, p) ==
  LET d == Len(st.stk)
  IN [st EXCEPT !.pos = p - 1,
                !.stk = IF d = 0 \/ st.stk[d].t = "sexp" THEN @ ELSE [@ EXCEPT ![d].s = "value"]]

Scalar(st, t, v, f, a, p) ==
  [k |-> "ev", ev |-> Ev("val", t, v, f, a, Len(st.stk)), st |-> AfterValue(st, p)]
Open(st, t, f, a, p) ==
  LET s1 == AfterValue(st, p)
  IN [k |-> "ev", ev |-> Ev("start", t, <<>>, f, a, Len(st.stk)),
      st |-> [s1 EXCEPT !.stk = Append(@, [t |-> t, s |-> "first"])]]

\* Ion's grammar leaves open what an operator character directly after an identifier
\* means: at the top level always, in an s-expression when it may start a number.
Abutting(X, e, d, sexp) ==
  LET c == Ch(X, e) c2 == Ch(X, e + 1)
      comment == c = 47 /\ c2 \in {47, 42}
  IN IF d > 0 /\ ~sexp THEN "no"
     ELSE IF c \notin OpChar THEN "no"
     ELSE IF c = 46 /\ SubSeq(X.c, Max2(1, e - 4), e - 1) = K_null /\ (e = 5 \/ X.c[Max2(1, e - 5)] \notin IdPart) THEN "no"
     ELSE IF c2 = UNK THEN "inc"
     ELSE IF comment THEN "no"
     ELSE IF d = 0 THEN "un"
     ELSE IF c \in {43, 45} /\ c2 \in Digit \cup {105} THEN "un" ELSE "no"

\* p is the first index of a value or annotation
RECURSIVE ValueText(_, _, _, _, _)
ValueText(X, st, p, f, a) ==
  LET c == Ch(X, p)
      c1 == Ch(X, p + 1)
      d == Len(st.stk)
      sexp == d > 0 /\ st.stk[d].t = "sexp"
      \* after a symbol token ending before q: is it an annotation?
      AfterSym(tok, q, quoted, kw, bare) ==
        LET w == SkipWs(X, q)
        IN IF w.k # "ok" THEN w
           ELSE IF Ch(X, w.p) = 58
           THEN IF Ch(X, w.p + 1) = UNK THEN TInc
                ELSE IF Ch(X, w.p + 1) # 58 THEN TErr("colon")
                ELSE IF kw THEN TErr("keyword as annotation")
                ELSE LET w2 == SkipWs(X, w.p + 2)
                     IN IF w2.k # "ok" THEN w2 ELSE ValueText(X, st, w2.p, f, Append(a, tok))
           ELSE IF bare # <<>> /\ d = 0 /\ a = <<>> /\ VersionMarkerLike(bare)
           THEN IF bare = IVM10
                THEN [k |-> "ev", ev |-> Ev("ivm", "", <<<<1, 0>>>>, <<>>, <<>>, 0), st |-> Advance(X, st, q)]
                ELSE TErr("unsupported version")
           ELSE Scalar(st, "symbol", tok, f, a, q)
  IN CASE c = UNK -> TInc
       [] c = EOFC -> TErr("missing value")
       [] c \in IdStart ->
            LET e == IdEnd(X, p) w == SubSeq(X.c, p, e - 1)
            IN IF Ch(X, e) = UNK THEN TInc
               ELSE IF Abutting(X, e, d, sexp) # "no" THEN IF Abutting(X, e, d, sexp) = "inc" THEN TInc ELSE TUn("operator after a symbol")
               ELSE IF w = K_null /\ Ch(X, e) = 46
               THEN LET t == NullType(X, e + 1)
                    IN IF t.k # "ok" THEN t
                       ELSE Scalar(st, t.t, <<>>, f, a, t.p)
               ELSE IF Keyword(w)
               THEN IF w = K_null THEN Scalar(st, "null", <<>>, f, a, e)
                    ELSE IF w = K_nan THEN Scalar(st, "float", <<NAN_BYTES>>, f, a, e)
                    ELSE Scalar(st, "bool", <<<<IF w = K_true THEN 1 ELSE 0>>>>, f, a, e)
               ELSE AfterSym(IdToken(w), e, FALSE, FALSE, w)
       [] c = 39 ->
            IF c1 = UNK \/ (c1 = 39 /\ Ch(X, p + 2) = UNK) THEN TInc
            ELSE IF IsTriple(X, p)
            THEN LET s == LongSegments(X, p + 3, FALSE, <<>>)
                 IN IF s.k # "ok" THEN s
                    ELSE Scalar(st, "string", <<s.v>>, f, a, s.p)
            ELSE LET s == Quoted(X, p + 1, 39, FALSE, FALSE, <<>>)
                 IN IF s.k # "ok" THEN s ELSE AfterSym(TextTok(s.v), s.p, TRUE, FALSE, <<>>)
       [] c = 34 ->
            LET s == Quoted(X, p + 1, 34, FALSE, FALSE, <<>>)
            IN IF s.k # "ok" THEN s ELSE Scalar(st, "string", <<s.v>>, f, a, s.p)
       [] c = 91 -> Open(st, "list", f, a, p + 1)
       [] c = 40 -> Open(st, "sexp", f, a, p + 1)
       [] c = 123 -> IF c1 = UNK THEN TInc
                     ELSE IF c1 = 123
                     THEN LET l == LobAt(X, p + 2)
                          IN IF l.k = "err" /\ "p" \in DOMAIN l THEN [k |-> "err", why |-> l.why, st |-> AfterValue(st, l.p)]
                             ELSE IF l.k # "ok" THEN l ELSE Scalar(st, l.t, l.v, f, a, l.p)
                     ELSE Open(st, "struct", f, a, p + 1)
       [] c \in Digit \/ (c = 45 /\ c1 \in Digit) ->
            LET e == NumEnd(X, p)
            IN IF e.k # "ok" THEN e
               ELSE LET r == NumericToken(SubSeq(X.c, p, e.p - 1))
                    IN IF r.k = "err" /\ r.why \in {"timestamp date", "timestamp time", "timestamp offset"}
                       THEN [k |-> "err", why |-> r.why, st |-> AfterValue(st, e.p)]
                       ELSE IF r.k # "ok" THEN r ELSE Scalar(st, r.t, r.v, f, a, e.p)
       [] c \in {43, 45} /\ c1 = UNK -> TInc
       [] c \in {43, 45} /\ c1 = 105 /\
            (LET e == IdEnd(X, p + 1) IN (Ch(X, e) = UNK /\ e - p - 1 <= 3) \/ SubSeq(X.c, p + 1, e - 1) = K_inf) ->
            LET e == p + 4 z == Ch(X, e)
            IN IF Ch(X, p + 2) = UNK \/ Ch(X, p + 3) = UNK \/ z = UNK THEN TInc
               ELSE IF z \in NumStop THEN Scalar(st, "float", <<InfBytes(IF c = 45 THEN 1 ELSE 0)>>, f, a, e)
               ELSE IF z = 47 THEN IF Ch(X, e + 1) = UNK THEN TInc
                                   ELSE IF Ch(X, e + 1) \in {47, 42}
                                   THEN Scalar(st, "float", <<InfBytes(IF c = 45 THEN 1 ELSE 0)>>, f, a, e)
                                   ELSE TUn("operator after inf")
               ELSE IF sexp THEN TUn("operator after inf") ELSE TErr("text after inf")
       [] c \in OpChar ->
            IF ~sexp THEN TErr("operator outside of an s-expression")
            ELSE LET e == OpEnd(X, p) w == SubSeq(X.c, p, e - 1)
                 IN IF Ch(X, e) = UNK THEN TInc
                    ELSE IF \E i \in 1..(Len(w) - 1) : w[i] = 47 /\ w[i + 1] \in {47, 42} THEN TUn("comment inside operators")
                    ELSE IF w[Len(w)] = 45 /\ Len(w) > 1 /\ Ch(X, e) \in Digit THEN TUn("minus after operators")
                    ELSE IF w[Len(w)] \in {43, 45} /\ Ch(X, e) = 105 THEN TUn("inf after operators")
                    ELSE Scalar(st, "symbol", TextTok(w), f, a, e)
       [] OTHER -> TErr("unexpected character")

\* Field name at p, then the value
FieldText(X, st, p) ==
  LET c == Ch(X, p)
      After(tok, q) ==
        LET w == SkipWs(X, q)
        IN IF w.k # "ok" THEN w
           ELSE IF Ch(X, w.p) # 58 THEN TErr("field name without a colon")
           ELSE IF Ch(X, w.p + 1) = UNK THEN TInc
           ELSE IF Ch(X, w.p + 1) = 58 THEN TErr("annotation in place of a field name")
           ELSE LET w2 == SkipWs(X, w.p + 1)
                IN IF w2.k # "ok" THEN w2 ELSE ValueText(X, st, w2.p, tok, <<>>)
  IN CASE c = UNK -> TInc
       [] c \in IdStart -> LET e == IdEnd(X, p) w == SubSeq(X.c, p, e - 1)
                           IN IF Ch(X, e) = UNK THEN TInc
                              ELSE IF Keyword(w) THEN TErr("keyword as field name")
                              ELSE After(IdToken(w), e)
       [] c = 34 -> LET s == Quoted(X, p + 1, 34, FALSE, FALSE, <<>>)
                    IN IF s.k # "ok" THEN s ELSE After(TextTok(s.v), s.p)
       [] c = 39 -> IF Ch(X, p + 1) = UNK \/ (Ch(X, p + 1) = 39 /\ Ch(X, p + 2) = UNK) THEN TInc
                    ELSE IF IsTriple(X, p)
                    THEN LET s == LongSegments(X, p + 3, FALSE, <<>>) IN IF s.k # "ok" THEN s ELSE After(TextTok(s.v), s.p)
                    ELSE LET s == Quoted(X, p + 1, 39, FALSE, FALSE, <<>>)
                         IN IF s.k # "ok" THEN s ELSE After(TextTok(s.v), s.p)
       [] OTHER -> TErr("field name")

Closer(t) == IF t = "list" THEN 93 ELSE IF t = "sexp" THEN 41 ELSE 125

TextNext(X, st) ==
  LET w == SkipWs(X, st.pos + 1)
      d == Len(st.stk)
      fr == st.stk[d]
      p == w.p
      c == Ch(X, p)
      End(q) == [k |-> "ev", ev |-> Ev("end", fr.t, <<>>, <<>>, <<>>, d - 1),
                 st |-> [st EXCEPT !.pos = q, !.stk = SubSeq(@, 1, d - 1)]]
      Elem(q) == IF fr.t = "struct" THEN FieldText(X, st, q) ELSE ValueText(X, st, q, <<>>, <<>>)
  IN IF d = 0
     THEN IF w.k = "err" THEN w
          ELSE IF w.k = "inc" THEN TInc
          ELSE IF c = EOFC THEN TR("eos", "")
          ELSE ValueText(X, st, p, <<>>, <<>>)
     ELSE IF w.k # "ok" THEN w
          ELSE IF c = EOFC THEN TErr("unclosed container")
          ELSE IF c = Closer(fr.t) THEN End(p)
          ELSE IF fr.t = "sexp" THEN ValueText(X, st, p, <<>>, <<>>)
          ELSE IF fr.s = "value"
          THEN IF c # 44 THEN TErr("missing comma")
               ELSE LET w2 == SkipWs(X, p + 1)
                    IN IF w2.k # "ok" THEN w2
                       ELSE IF Ch(X, w2.p) = EOFC THEN TErr("unclosed container")
                       ELSE IF Ch(X, w2.p) = Closer(fr.t) THEN End(w2.p)
                       ELSE Elem(w2.p)
          ELSE Elem(p)

\* The whole document
TextDecode(C) ==
  LET X == [c |-> C, n |-> Len(C), eof |-> TRUE]
      RECURSIVE Go(_, _)
      Go(st, acc) == LET r == TextNext(X, st)
                     IN IF r.k = "ev" THEN Go(r.st, Append(acc, r.ev))
                        ELSE [evs |-> acc, k |-> r.k, why |-> r.why]
  IN Go(TextInit, <<>>)

\* TRUE iff nothing but whitespace and complete or line comments is left at index p
RECURSIVE Blank(_, _)
Blank(X, p) ==
  LET c == IF p <= X.n THEN X.c[p] ELSE EOFC
  IN IF c = EOFC THEN TRUE
     ELSE IF c \in Ws THEN Blank(X, p + 1)
     ELSE IF c = 47 /\ p + 1 <= X.n /\ X.c[p + 1] = 47 THEN Blank(X, LineEnd(X, p + 2))
     ELSE IF c = 47 /\ p + 1 <= X.n /\ X.c[p + 1] = 42
          THEN LET q == BlockEnd(X, p + 2) IN q # 0 /\ Blank(X, q)
     ELSE FALSE
=============================================================================
