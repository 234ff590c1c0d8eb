----------------------------- MODULE IonTimestamp -----------------------------
(***************************************************************************)
(* Timestamp objects: how they are made, copied, replaced and computed     *)
(* with.                                                                   *)
(*                                                                         *)
(* An object is [c, y, us, fp, fs, prec, off, t, a]: c is "T" (Timestamp), *)
(* "I" (IonPyTimestamp) or "dt" (datetime); y = <<year, month, day, hour,  *)
(* minute, second>>; us the microsecond; fp, prec and off (minutes) are    *)
(* <<>> or <<n>>; fs is <<>> or <<sign, digits, exponent>>; t and a are    *)
(* the Ion type and annotations.                                           *)
(***************************************************************************)
EXTENDS IonBase

US == 6

\* The fraction of [0, 1) that fs denotes, as digits after the point; zero with an exponent >= 0 has none.
InRange(fs) ==
  LET nz == StripLeadZeros(fs[2])
  IN nz = <<>> \/ (fs[1] = 0 /\ Len(nz) <= 0 - fs[3])
Frac(fs) ==
  IF fs[3] >= 0 THEN <<>>
  ELSE LET n == 0 - fs[3]
           nz == StripLeadZeros(fs[2])
       IN Zeros(n - Len(nz)) \o nz
First6(ds) == [i \in 1..US |-> IF i <= Len(ds) THEN ds[i] ELSE 0]
Number(ds) == FoldLeft(LAMBDA acc, d : (acc * 10) + d, 0, ds)
Micro(ds) == Number(First6(ds))
Pow10(n) == FoldLeft(LAMBDA acc, i : acc * 10, 1, [i \in 1..n |-> i])
Digits6(us) == [i \in 1..US |-> (us \div Pow10(US - i)) % 10]

\* The fields of one object agree with one another.
Consistent(o) ==
  \/ o.c = "dt"
  \/ /\ o.fs # <<>> /\ o.fp # <<>>
     /\ InRange(o.fs) /\ o.fs[3] <= 0
     /\ o.us = Micro(Frac(o.fs))
     /\ o.fp[1] = Min2(Len(Frac(o.fs)), US)

FracOf(o) == IF o.c = "dt" THEN Digits6(o.us) ELSE Frac(o.fs)

(* Days since 0000-03-01 and back *)
DayNo(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      mp == (m + 9) % 12
  IN ((365 * yy) + (yy \div 4) - (yy \div 100) + (yy \div 400)) + ((((153 * mp) + 2) \div 5) + d - 1)
DateOf(n) ==
  LET era == n \div 146097
      doe == n % 146097
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - ((365 * yoe) + (yoe \div 4) - (yoe \div 100))
      mp == ((5 * doy) + 2) \div 153
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN <<(yoe + (400 * era)) + (IF m <= 2 THEN 1 ELSE 0), m, (doy - (((153 * mp) + 2) \div 5)) + 1>>
FloorDiv(a, b) == IF a >= 0 THEN a \div b ELSE 0 - (((0 - a) + b - 1) \div b)
FirstDay == DayNo(1, 1, 1)
LastDay == DayNo(9999, 12, 31)
\* y and us moved by days and seconds (|secs| < 10^6) and microseconds (|micros| < 10^6): [k, y, us]
Moved(y, us, days, secs, micros) ==
  LET u == us + micros
      cu == FloorDiv(u, 1000000)
      s == (y[4] * 3600) + (y[5] * 60) + y[6] + secs + cu
      cd == FloorDiv(s, 86400)
      s2 == s - (cd * 86400)
      n == DayNo(y[1], y[2], y[3]) + days + cd
  IN IF n < FirstDay \/ n > LastDay THEN [k |-> "err", y |-> y, us |-> us]
     ELSE [k |-> "ok", y |-> DateOf(n) \o <<s2 \div 3600, (s2 \div 60) % 60, s2 % 60>>, us |-> u - (cu * 1000000)]

ValidFields(y) == ValidDate(y[1], y[2], y[3]) /\ y[4] \in 0..23 /\ y[5] \in 0..59 /\ y[6] \in 0..59

(* Construction: q = [how, y, us, fp, fs, prec, off, oh, om].  y may be short: timestamp() supplies *)
(* defaults, the constructor needs year, month and day.                                             *)
Defaults == <<1, 1, 1, 0, 0, 0>>
Full(y) == [i \in 1..6 |-> IF i <= Len(y) THEN y[i] ELSE Defaults[i]]
NewOff(q) ==
  IF q.how = "fn" THEN IF q.oh = <<>> /\ q.om = <<>> THEN <<>>
                       ELSE <<((IF q.oh = <<>> THEN 0 ELSE q.oh[1]) * 60) + (IF q.om = <<>> THEN 0 ELSE q.om[1])>>
  ELSE q.off
Refused(q) ==
  \/ q.how = "ctor" /\ Len(q.y) < 3
  \/ Len(q.y) < 1
  \/ ~ValidFields(Full(q.y))
  \/ q.oh # <<>> /\ q.oh[1] \notin (0 - 23)..23
  \/ q.om # <<>> /\ q.om[1] \notin (0 - 59)..59
  \/ q.off # <<>> /\ q.off[1] \notin (0 - 1439)..1439
  \/ q.fp # <<>> /\ q.fp[1] \notin 0..US
  \/ q.fs # <<>> /\ ~InRange(q.fs)
  \/ q.fs # <<>> /\ (q.fp # <<>> \/ q.us # <<>>)
  \/ q.fp # <<>> /\ q.us = <<>>
  \/ q.us # <<>> /\ q.us[1] \notin 0..999999
  \/ q.us # <<>> /\ q.fp # <<>> /\ \E i \in (q.fp[1] + 1)..US : Digits6(q.us[1])[i] # 0
\* The fraction digits given
Given(q) ==
  IF q.fs # <<>> THEN Frac(q.fs)
  ELSE IF q.us # <<>> THEN SubSeq(Digits6(q.us[1]), 1, IF q.fp = <<>> THEN US ELSE q.fp[1])
  ELSE <<>>

Same(o, p) == o.y = p.y /\ o.us = p.us /\ o.fp = p.fp /\ o.prec = p.prec /\ o.off = p.off /\ FracOf(o) = FracOf(p)
Twin(o, p) == Same(o, p) /\ o.c = p.c /\ o.t = p.t /\ o.a = p.a

\* Why the answer r = [k, o] to the operation q, on the object s if it has one, is wrong; "" if it is right.
Fault(q, s, r) ==
  LET o == r.o
      Ask(err, why) == IF err THEN IF r.k = "err" THEN "" ELSE "an inconsistent combination does not raise"
                       ELSE IF r.k = "err" THEN "a consistent combination raises" ELSE IF ~Consistent(o) THEN "the fields disagree" ELSE why
      Put(y, names, vals) == [i \in 1..6 |-> IF \E k \in 1..Len(names) : names[k] = i THEN vals[CHOOSE k \in 1..Len(names) : names[k] = i] ELSE y[i]]
      \* microseconds computed, not given: what is beyond them cannot be kept
      Result(y, us, off) == IF o.y # y \/ o.us # us THEN "other fields" ELSE IF o.off # off THEN "another offset" ELSE ""
  IN CASE q.op = "new" ->
            Ask(Refused(q),
                IF o.y # Full(q.y) THEN "other fields"
                ELSE IF FracOf(o) # Given(q) THEN "another fraction"
                ELSE IF o.prec # q.prec THEN "another precision"
                ELSE IF o.off # NewOff(q) THEN "another offset"
                ELSE IF o.c # "T" THEN "another class" ELSE "")
       [] q.op \in {"copy", "deepcopy", "pickle"} -> Ask(FALSE, IF Twin(o, s) THEN "" ELSE "the copy differs")
       [] q.op = "ion" ->
            Ask(FALSE, IF o.c # "I" \/ o.t # "timestamp" \/ o.a # q.a THEN "another type or other annotations"
                       ELSE IF o.y # s.y \/ o.off # s.off \/ FracOf(o) # FracOf(s) THEN "the value differs"
                       ELSE IF o.prec # (IF s.c = "dt" THEN <<4>> ELSE s.prec) THEN "another precision" ELSE "")
       [] q.op = "replace" ->
            LET y == Put(s.y, q.names, q.vals)
                same == q.us = <<>>
            IN Ask(~ValidFields(y) \/ (q.us # <<>> /\ q.us[1] \notin 0..999999),
                   IF o.y # y THEN "other fields"
                   ELSE IF o.off # (IF q.tz = <<>> THEN s.off ELSE q.tz[1]) THEN "another offset"
                   ELSE IF o.prec # s.prec THEN "another precision"
                   ELSE IF same /\ (FracOf(o) # FracOf(s) \/ o.fp # s.fp) THEN "another fraction"
                   ELSE IF ~same /\ o.us # q.us[1] THEN "another microsecond"
                   ELSE "")
       [] q.op = "add" ->
            LET m == Moved(s.y, s.us, q.days, q.secs, q.micros)
            IN Ask(m.k = "err", Result(m.y, m.us, s.off))
       [] q.op = "zone" ->
            LET m == Moved(s.y, s.us, 0, (q.off - s.off[1]) * 60, 0)
                \* the way leads over UTC, which may be out of range
                via == Moved(s.y, s.us, 0, (0 - s.off[1]) * 60, 0)
            IN IF via.k = "err" THEN "" ELSE Ask(m.k = "err", Result(m.y, m.us, <<q.off>>))
       [] q.op = "utc" ->
            LET off == IF NewOff(q) = <<>> THEN 0 ELSE NewOff(q)[1]
                m == Moved(Full(q.y), Micro(Given(q)), 0, off * 60, 0)
            IN Ask(Refused(q) \/ m.k = "err",
                   IF Result(m.y, m.us, NewOff(q)) # "" THEN Result(m.y, m.us, NewOff(q))
                   ELSE IF q.prec # <<>> /\ FracOf(o) # Given(q) THEN "another fraction"
                   ELSE IF q.prec # <<>> /\ o.prec # q.prec THEN "another precision" ELSE "")
       [] OTHER -> "unknown operation"
=============================================================================
