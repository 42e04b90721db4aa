---------------------------- MODULE Calendar ----------------------------
(* The Gregorian calendar, the two date systems, and what a built-in date
   format shows for an instant.  Shared by Dates (C17) and XlsxBook (C15).    *)
EXTENDS Builtins

Leap(yy) == (yy % 4 = 0 /\ yy % 100 # 0) \/ yy % 400 = 0
Len_(yy, mm) == CASE mm = 2 -> (IF Leap(yy) THEN 29 ELSE 28)
                  [] mm \in {4, 6, 9, 11} -> 30
                  [] OTHER -> 31
\* closed form: days since 0000-03-01
Day(yy, mm, dd) ==
  LET a == IF mm <= 2 THEN yy - 1 ELSE yy
      p == (mm + 9) % 12
  IN 365 * a + a \div 4 - a \div 100 + a \div 400 + (153 * p + 2) \div 5 + dd - 1
Epoch(s) == IF s = 1904 THEN Day(1904, 1, 1) ELSE Day(1899, 12, 30)

\* an instant: [y, m, d, ms (of the day), serial]
Two(n) == IF n < 10 THEN "0" \o D(n) ELSE D(n)
Mon == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
TokAt(t, n) ==
  LET h == n.ms \div 3600000
      i == (n.ms \div 60000) % 60
      s == (n.ms \div 1000) % 60
  IN CASE t = "Y4" -> D(n.y)
       [] t = "Y2" -> Two(n.y % 100)
       [] t = "M1" -> D(n.m)
       [] t = "M2" -> Two(n.m)
       [] t = "MON" -> Mon[n.m]
       [] t = "D1" -> D(n.d)
       [] t = "D2" -> Two(n.d)
       [] t = "H2" -> Two(h)
       [] t = "H12" -> D(((h + 11) % 12) + 1)
       [] t = "MI" -> Two(i)
       [] t = "SS" -> Two(s)
       [] t = "T1" -> D((n.ms % 1000) \div 100)
       [] t = "EL" -> D((n.serial * 24) + h)
       [] t = "AP" -> IF h < 12 THEN "AM" ELSE "PM"
       [] t = "CAP" -> IF h < 12 THEN "<am>" ELSE "<pm>"
       [] OTHER -> t
ShowAt(id, n) == Cat([k \in 1..Len(BuiltIn[id].tok) |-> TokAt(BuiltIn[id].tok[k], n)])
=============================================================================
