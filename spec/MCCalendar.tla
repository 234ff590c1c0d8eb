------------------------------ MODULE MCCalendar ------------------------------
(***************************************************************************)
(* The calendar that IonTimestamp computes with, day by day: every date is *)
(* valid, has the number it was made from, and is followed by the next one.*)
(***************************************************************************)
EXTENDS IonTimestamp

CONSTANTS Stride, Window

VARIABLES day

Init == day \in FirstDay..(FirstDay + Window - 1)
Next == day < LastDay - Stride /\ day' = day + Stride
Spec == Init /\ [][Next]_day

Calendar == 
              LET d == DateOf(day) e == DateOf(day + 1)
              IN /\ ValidDate(d[1], d[2], d[3]) /\ DayNo(d[1], d[2], d[3]) = day
                 /\ \/ e = <<d[1], d[2], d[3] + 1>>
                    \/ e = <<d[1], d[2] + 1, 1>> /\ ~ValidDate(d[1], d[2], d[3] + 1)
                    \/ e = <<d[1] + 1, 1, 1>> /\ d[2] = 12 /\ d[3] = 31
                 /\ LET m == Moved(d \o <<0, 0, 0>>, 0, 0, 0 - 1, 0) n == Moved(m.y, m.us, 0, 1, 0) IN m.k = "ok" => n.y = d \o <<0, 0, 0>>
=============================================================================
