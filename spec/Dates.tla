---------------------------- MODULE Dates ----------------------------
(* C17.  Day serial numbers of the two date systems.

   Month machine: starting at the month that holds serial 0, every step goes to
   the next month; first is the serial of its first day.  A second, closed
   form of the Gregorian calendar (Day) must agree in every state (Agree), so
   consecutive serials are consecutive days.  Each month is emitted and every
   one of its days is looked up in the real code.

   Instants: a serial in some month plus a time of day in milliseconds, and
   what every built-in date format shows for it.                             *)
EXTENDS Calendar, Json

CONSTANTS MODE, LastYear, Hours, Mins, Secs, Mss, Jumps

VARIABLES sys, y, m, first, day, ms, phase
vars == <<sys, y, m, first, day, ms, phase>>

Agree == first = Day(y, m, 1) - Epoch(sys)

Init == /\ sys \in {1900, 1904}
        /\ y = IF sys = 1900 THEN 1899 ELSE 1904
        /\ m = IF sys = 1900 THEN 12 ELSE 1
        /\ first = IF sys = 1900 THEN 0 - 29 ELSE 0
        \* day < 0: that many jumps still to make before a day is picked
        /\ day \in IF MODE = "inst" THEN (0 - 12)..0 ELSE {0}
        /\ ms = 0 /\ phase = "month"

NextMonth ==
  /\ phase = "month" /\ y <= LastYear
  /\ PrintT(ToJson([k |-> "month", sys |-> sys, y |-> y, m |-> m, first |-> first, n |-> Len_(y, m)]))
  /\ first' = first + Len_(y, m)
  /\ m' = IF m = 12 THEN 1 ELSE m + 1
  /\ y' = IF m = 12 THEN y + 1 ELSE y
  /\ UNCHANGED <<sys, day, ms, phase>>

(* ---- instants ---- *)
Jump(n) == /\ phase = "month" /\ day < 0
           /\ LET mm == m + n
                  yy == y + ((mm - 1) \div 12)
                  m2 == ((mm - 1) % 12) + 1
              IN /\ yy <= LastYear /\ y' = yy /\ m' = m2
                 /\ first' = Day(yy, m2, 1) - Epoch(sys)
           /\ day' = day + 1
           /\ UNCHANGED <<sys, ms, phase>>
PickDay == /\ phase = "month" /\ day = 0
           /\ \E d \in {1, 2, 9, 10, 13, 28, 29, 30, 31} :
                d <= Len_(y, m) /\ first + d - 1 >= 0 /\ day' = d
           /\ phase' = "hour"
           /\ UNCHANGED <<sys, y, m, first, ms>>
PickHour == /\ phase = "hour" /\ \E h \in Hours : ms' = h * 3600000
            /\ phase' = "min" /\ UNCHANGED <<sys, y, m, first, day>>
PickMin == /\ phase = "min" /\ \E i \in Mins : ms' = ms + i * 60000
           /\ phase' = "sec" /\ UNCHANGED <<sys, y, m, first, day>>
PickSec == /\ phase = "sec" /\ \E s \in Secs, t \in Mss : ms' = ms + s * 1000 + t
           /\ phase' = "show" /\ UNCHANGED <<sys, y, m, first, day>>

Serial == first + day - 1
Now == [y |-> y, m |-> m, d |-> day, ms |-> ms, serial |-> Serial]
Show(id) == ShowAt(id, Now)
\* tenths are claimed for whole tenths only (the direction of rounding is not)
Shown == {id \in DateIds : ms % 100 = 0 \/ ~(\E k \in 1..Len(BuiltIn[id].tok) : BuiltIn[id].tok[k] = "T1")}

ShowAll == /\ phase = "show" /\ phase' = "shown"
           /\ PrintT(ToJson([k |-> "inst", sys |-> sys, serial |-> Serial, y |-> y, m |-> m, d |-> day, ms |-> ms,
                             s |-> [id \in {ToString(j) : j \in Shown} |->
                                      Show(CHOOSE j \in Shown : ToString(j) = id)]]))
           /\ UNCHANGED <<sys, y, m, first, day, ms>>

\* a span of consecutive serials is a span of consecutive calendar days
Next == CASE MODE = "cal" -> NextMonth
          [] MODE = "inst" -> (\E n \in Jumps : Jump(n)) \/ PickDay \/ PickHour \/ PickMin \/ PickSec \/ ShowAll
          [] MODE = "clock" -> PickDay \/ PickHour \/ PickMin \/ PickSec \/ ShowAll
Spec == Init /\ [][Next]_vars
=============================================================================
