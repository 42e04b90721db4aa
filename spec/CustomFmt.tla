---------------------------- MODULE CustomFmt ----------------------------
(* C28.  Custom number format codes.

   A code is written section by section and token by token from an abstract
   form that says what it means: literal text and the several ways to write
   it, digit placeholders, decimals that always show and decimals that show
   when needed, grouping, percent, thousands scaling, exponents, date and time
   fields, the text place holder.  Which section shows a value, and what it
   shows there, is predicted on the digits of the value and on the calendar.  *)
EXTENDS Calendar, Json

CONSTANTS MODE, Ints, Fixs, Opts, Pcts, Exps, Lits, Values, Times, MaxToks

VARIABLES secs, cur, left, phase, chosen
vars == <<secs, cur, left, phase, chosen>>

(* ---- literal text: how it is written, what it shows ---- *)
L(src, out) == [k |-> "lit", src |-> src, out |-> out]
LitTab == [ none   |-> L("", ""),
            usd    |-> L("$", "$"),
            quoted |-> L("\" kg\"", " kg"),
            words  |-> L("\"day 0%;#m\"", "day 0%;#m"),
            esc    |-> L("\\x", "x"),
            escsp  |-> L("\\ ", " "),
            escd   |-> L("\\d", "d"),
            esc0   |-> L("\\0", "0"),
            escq   |-> L("\\\"", "\""),
            space  |-> L(" ", " "),
            color  |-> L("[Red]", ""),
            color2 |-> L("[Color 12]", ""),
            eur    |-> L("[$EUR-407]", "EUR"),
            locale |-> L("[$-409]", ""),
            minus  |-> L("-", "-"),
            plus   |-> L("+", "+"),
            open   |-> L("(", "("),
            close  |-> L(")", ")"),
            pad    |-> L("_)", ""),
            padm   |-> L("_-", ""),
            fill   |-> L("* ", ""),
            colon  |-> L(":", ":"),
            slash  |-> L("/", "/") ]
LitSrc(ls) == Cat([i \in 1..Len(ls) |-> LitTab[ls[i]].src])
LitOut(ls) == Cat([i \in 1..Len(ls) |-> LitTab[ls[i]].out])

(* ---- number sections ----
   int: the placeholders of the whole part ("0", "#"; "," groups; "-" and "/"
   stand for literals between them); fix decimals always shown, opt more only
   when needed; point without decimals is not written; exp: digits of the
   exponent (0 none); scale: trailing commas.                                 *)
IntSrc == [ z1 |-> "0", h1 |-> "#", z2 |-> "00", z3 |-> "000", z5 |-> "00000", g1 |-> "#,##0", g0 |-> "0,000",
            gh |-> "#,###", h2 |-> "##", hz |-> "#0", z32 |-> "000-00", e3 |-> "##0", no |-> "" ]
\* placeholders from the left; literals between them
IntPat == [ z1 |-> <<"0">>, h1 |-> <<"#">>, z2 |-> <<"0", "0">>, z3 |-> <<"0", "0", "0">>,
            z5 |-> <<"0", "0", "0", "0", "0">>, g1 |-> <<"#", "#", "#", "0">>, g0 |-> <<"0", "0", "0", "0">>,
            gh |-> <<"#", "#", "#", "#">>, h2 |-> <<"#", "#">>, hz |-> <<"#", "0">>,
            z32 |-> <<"0", "0", "0", "-", "0", "0">>, e3 |-> <<"#", "#", "0">>, no |-> <<>> ]
Grouped(i) == i \in {"g1", "g0", "gh"}

Num(pre, i, fix, opt, pct, exp, scale, suf) ==
  [k |-> "num", pre |-> pre, int |-> i, fix |-> fix, opt |-> opt, pct |-> pct, exp |-> exp, scale |-> scale, suf |-> suf]
Rep(s, n) == Cat([i \in 1..n |-> s])
NumSrc(c) == LitSrc(c.pre) \o IntSrc[c.int]
             \o (IF c.fix + c.opt > 0 THEN "." \o Rep("0", c.fix) \o Rep("#", c.opt) ELSE "")
             \o Rep(",", c.scale)
             \o (IF c.exp > 0 THEN "E+" \o Rep("0", c.exp) ELSE "")
             \o (IF c.pct THEN "%" ELSE "") \o LitSrc(c.suf)

\* the placeholders, filled from the right with the digits that count
\* (a whole part of zero has none); the first takes all that are left
RECURSIVE Fill(_, _, _, _)
Fill(pat, ds, n, grp) ==
  IF pat = <<>> THEN ""
  ELSE LET p == Last(pat)
           rest == Front(pat)
           sep == IF grp /\ n > 0 /\ n % 3 = 0 THEN "," ELSE ""
       IN IF p \notin {"0", "#"} THEN Fill(rest, ds, n, grp) \o p
          ELSE IF ds = <<>> THEN IF p = "0" THEN Fill(rest, ds, n + 1, grp) \o "0" \o sep
                                 ELSE Fill(rest, ds, n, grp)
          ELSE IF rest = <<>>   \* all that are left
               THEN (IF Len(ds) = 1 THEN "" ELSE Fill(<<p>>, Front(ds), n + 1, grp)) \o D(Last(ds)) \o sep
          ELSE Fill(rest, Front(ds), n + 1, grp) \o D(Last(ds)) \o sep
\* with no placeholder at all the digits come as they are
Whole(i, ip, grp) == LET ds == IF IsZero(ip) THEN <<>> ELSE Strip(ip)
                     IN IF IntPat[i] = <<>> THEN DigStr(ds) ELSE Fill(IntPat[i], ds, 0, grp)

\* decimals: the first fix always, later ones up to the last that is not zero
RECURSIVE TrimTo(_, _)
TrimTo(ds, n) == IF Len(ds) > n /\ Last(ds) = 0 THEN TrimTo(Front(ds), n) ELSE ds
Decs(c) == c.fix + c.opt
Scaled(c, v) == LET s == IF c.pct THEN Hundred(v) ELSE v IN IF c.scale > 0 THEN Scale(s, 3 * c.scale) ELSE s
\* digits before the point of the mantissa, at most
Slots(c) == LET n == Cardinality({j \in 1..Len(IntPat[c.int]) : IntPat[c.int][j] \in {"0", "#"}}) IN IF n = 0 THEN 1 ELSE n
FloorTo(e, n) == IF e >= 0 THEN (e \div n) * n ELSE 0 - (((n - 1 - e) \div n) * n)
ExpOf0(c, v) == IF ZeroV(v) THEN 0 ELSE FloorTo(Lead(v), Slots(c))
ExpOf(c, v) == LET e == ExpOf0(c, v)
                   m == RoundTo(Scale(v, e), Decs(c))
               IN IF Len(Strip(m.ip)) > Slots(c) THEN e + Slots(c) ELSE e
ExpText(c, e) == LET a == D(IF e < 0 THEN 0 - e ELSE e)
                 IN "E" \o (IF e < 0 THEN "-" ELSE "+") \o Rep("0", IF Len(a) < c.exp THEN c.exp - Len(a) ELSE 0) \o a
Mant(c, v) == LET s == Scaled(c, v) IN IF c.exp = 0 THEN s ELSE Scale(s, ExpOf(c, s))
NumClaimed(c, v) ==
  ~(v.neg /\ ZeroV(RoundTo(Mant(c, v), Decs(c))))
NumShow(c, v) ==
  LET m == RoundTo(Mant(c, v), Decs(c))
      s == Scaled(c, v)
      f == TrimTo(m.fp, c.fix)
  IN LitOut(c.pre) \o Whole(c.int, m.ip, Grouped(c.int))
     \o (IF Decs(c) > 0 THEN "." \o DigStr(f) ELSE "")
     \o (IF c.exp > 0 THEN ExpText(c, ExpOf(c, s)) ELSE "")
     \o (IF c.pct THEN "%" ELSE "") \o LitOut(c.suf)

(* ---- date sections: fields and literals ---- *)
Months == <<"January", "February", "March", "April", "May", "June", "July", "August", "September",
            "October", "November", "December">>
WDays == <<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>
WDayLong == <<"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday">>
\* 1 = Sunday; 2000-01-01 was a Saturday
WDay(n) == ((Day(n.y, n.m, n.d) - Day(2000, 1, 1) + 700000 + 6) % 7) + 1
Pad(s, w) == Rep("0", IF Len(s) < w THEN w - Len(s) ELSE 0) \o s
Three(n) == Pad(D(n), 3)

HourF == {"h", "hh", "[h]", "[hh]"}
SecF == {"s", "ss", "[s]", "[ss]"}
MinMon == {"m", "mm"}
ApF == {"AM/PM", "A/P"}
FracF == {".0", ".00", ".000"}
Fields == {"yy", "yyyy", "m", "mm", "mmm", "mmmm", "d", "dd", "ddd", "dddd"} \cup HourF \cup {"s", "ss", "[m]", "[mm]", "[s]", "[ss]"} \cup ApF
\* the fields around position i (literals, AM/PM and fractions do not count)
IsF(t) == t.k = "fld" /\ t.f \notin ApF \cup FracF
Before(ts, i) == LET p == {j \in 1..(i - 1) : IsF(ts[j])} IN IF p = {} THEN "" ELSE ts[CHOOSE j \in p : \A q \in p : q <= j].f
After(ts, i) == LET p == {j \in (i + 1)..Len(ts) : IsF(ts[j])} IN IF p = {} THEN "" ELSE ts[CHOOSE j \in p : \A q \in p : j <= q].f
\* m and mm are minutes after an hour or before a second
Minute(ts, i) == ts[i].f \in MinMon /\ (Before(ts, i) \in HourF \/ After(ts, i) \in SecF)
HasAp(ts) == \E j \in 1..Len(ts) : ts[j].k = "fld" /\ ts[j].f \in ApF
FieldShow(ts, i, n) ==
  LET f == ts[i].f
      h == n.ms \div 3600000
      mi == (n.ms \div 60000) % 60
      s == (n.ms \div 1000) % 60
      hh == IF HasAp(ts) THEN ((h + 11) % 12) + 1 ELSE h
  IN CASE f = "yy" -> Two(n.y % 100)
       [] f = "yyyy" -> D(n.y)
       [] f = "m" -> D(IF Minute(ts, i) THEN mi ELSE n.m)
       [] f = "mm" -> Two(IF Minute(ts, i) THEN mi ELSE n.m)
       [] f = "mmm" -> Mon[n.m]
       [] f = "mmmm" -> Months[n.m]
       [] f = "d" -> D(n.d)
       [] f = "dd" -> Two(n.d)
       [] f = "ddd" -> WDays[WDay(n)]
       [] f = "dddd" -> WDayLong[WDay(n)]
       [] f = "h" -> D(hh)
       [] f = "hh" -> Two(hh)
       [] f = "s" -> D(s)
       [] f = "ss" -> Two(s)
       [] f = "[h]" -> D((n.serial * 24) + h)
       [] f = "[hh]" -> Two((n.serial * 24) + h)
       [] f = "[m]" -> D((n.serial * 1440) + (n.ms \div 60000))
       [] f = "[mm]" -> Two((n.serial * 1440) + (n.ms \div 60000))
       [] f = "[s]" -> D((n.serial * 86400) + (n.ms \div 1000))
       [] f = "[ss]" -> Two((n.serial * 86400) + (n.ms \div 1000))
       [] f = "AM/PM" -> IF h < 12 THEN "AM" ELSE "PM"
       [] f = "A/P" -> IF h < 12 THEN "A" ELSE "P"
       [] f = ".0" -> "." \o D((n.ms % 1000) \div 100)
       [] f = ".00" -> "." \o Two((n.ms % 1000) \div 10)
       [] f = ".000" -> "." \o Three(n.ms % 1000)
DateSrc(c) == Cat([i \in 1..Len(c.ts) |-> IF c.ts[i].k = "fld" THEN (IF c.up THEN c.ts[i].u ELSE c.ts[i].f) ELSE c.ts[i].src])
DateShow(c, n) == Cat([i \in 1..Len(c.ts) |-> IF c.ts[i].k = "fld" THEN FieldShow(c.ts, i, n) ELSE c.ts[i].out])
\* fractions of a second only as many as are shown exactly; elapsed seconds
\* within the integers of the checker
DateClaimed(c, n) == \A i \in 1..Len(c.ts) : c.ts[i].k = "fld" =>
  CASE c.ts[i].f = ".0" -> n.ms % 100 = 0
    [] c.ts[i].f = ".00" -> n.ms % 10 = 0
    [] c.ts[i].f \in {"[s]", "[ss]"} -> n.serial < 20000
    [] OTHER -> TRUE
UpOf == [f \in Fields \cup FracF |-> CASE f = "yy" -> "YY" [] f = "yyyy" -> "YYYY" [] f = "m" -> "M" [] f = "mm" -> "MM"
          [] f = "mmm" -> "MMM" [] f = "mmmm" -> "MMMM" [] f = "d" -> "D" [] f = "dd" -> "DD" [] f = "ddd" -> "DDD"
          [] f = "dddd" -> "DDDD" [] f = "h" -> "H" [] f = "hh" -> "HH" [] f = "s" -> "S" [] f = "ss" -> "SS"
          [] f = "[h]" -> "[H]" [] f = "[hh]" -> "[HH]" [] f = "[m]" -> "[M]" [] f = "[mm]" -> "[MM]" [] f = "[s]" -> "[S]" [] f = "[ss]" -> "[SS]" [] OTHER -> f]
F(f) == [k |-> "fld", f |-> f, u |-> UpOf[f]]

(* ---- whole codes ---- *)
Src(c) == CASE c.k = "num" -> NumSrc(c)
            [] c.k = "date" -> LitSrc(c.pre) \o DateSrc(c)
            [] c.k = "lit" -> LitSrc(c.pre)
            [] c.k = "text" -> LitSrc(c.pre) \o "@" \o LitSrc(c.suf)
            [] c.k = "gen" -> LitSrc(c.pre) \o "General" \o LitSrc(c.suf)
Code(ss) == Cat([i \in 1..Len(ss) |-> (IF i > 1 THEN ";" ELSE "") \o Src(ss[i])])
HasText(ss) == Last(ss).k = "text" \/ Len(ss) = 4
Nums(ss) == IF HasText(ss) THEN Front(ss) ELSE ss
Abs_(v) == [v EXCEPT !.neg = FALSE]
\* the section that shows the number v, and whether the sign is shown before it
Pick(ss, v) == LET n == Nums(ss) IN
  IF n = <<>> THEN [c |-> Last(ss), sign |-> FALSE, v |-> v]
  ELSE IF ZeroV(v) THEN [c |-> IF Len(n) >= 3 THEN n[3] ELSE n[1], sign |-> FALSE, v |-> v]
  ELSE IF v.neg THEN IF Len(n) >= 2 THEN [c |-> n[2], sign |-> FALSE, v |-> Abs_(v)]
                     ELSE [c |-> n[1], sign |-> n[1].k # "lit", v |-> Abs_(v)]
  ELSE [c |-> n[1], sign |-> FALSE, v |-> v]
ShowN(ss, v) ==
  LET p == Pick(ss, v)
      body == CASE p.c.k = "num" -> NumShow(p.c, p.v)
                [] p.c.k = "lit" -> LitOut(p.c.pre)
                [] p.c.k \in {"text", "gen"} -> LitOut(p.c.pre) \o Plain(p.v) \o LitOut(p.c.suf)
  IN (IF p.sign THEN "-" ELSE "") \o body
ClaimedN(ss, v) == LET p == Pick(ss, v) IN
  CASE p.c.k = "num" -> NumClaimed(p.c, [p.v EXCEPT !.neg = v.neg])
    [] p.c.k = "lit" -> ~(v.neg /\ Len(Nums(ss)) = 1)   \* a constant alone: its sign is not claimed
    [] p.c.k \in {"text", "gen"} -> Short(v)
    [] OTHER -> FALSE
\* text
ShowT(ss, t) == IF ~HasText(ss) THEN t
                ELSE IF Last(ss).k = "text" THEN LitOut(Last(ss).pre) \o t \o LitOut(Last(ss).suf)
                ELSE LitOut(Last(ss).pre)
TypeIs(ss) == IF Nums(ss) = <<>> THEN "string"
              ELSE LET c == ss[1] IN
                   CASE c.k = "date" -> "date" [] c.k = "num" -> IF c.pct \/ Decs(c) > 0 \/ c.exp > 0 THEN "float" ELSE "integer"
                     [] OTHER -> "*"

\* the values a code is tried with
ValsOf(ss) == {v \in Values : ClaimedN(ss, v)}
TimesOf(ss) == IF Nums(ss) # <<>> /\ ss[1].k = "date" THEN {n \in Times : DateClaimed(ss[1], n)} ELSE {}
Emit(ss) ==
  PrintT(ToJson([code |-> Code(ss), type |-> TypeIs(ss),
    nums |-> SetToSeq({<<Plain(v), ShowN(ss, v)>> : v \in ValsOf(ss)}),
    times |-> SetToSeq({<<n.serial, n.ms, n.y, n.m, n.d, LitOut(ss[1].pre) \o DateShow(ss[1], n)>> : n \in TimesOf(ss)}),
    text |-> ShowT(ss, "some text")]))

(* ---- behaviours ---- *)
\* placeholders that make a defined number section
Good(c) == /\ c.exp > 0 => ~c.pct /\ c.scale = 0 /\ c.int \in {"z1", "e3"} /\ ~(c.int = "e3" /\ Decs(c) = 0)
           /\ c.int = "no" => c.fix + c.opt > 0
           /\ c.scale > 0 => c.opt + c.fix = 0 \/ c.int # "no"
           /\ c.int = "z32" => c.fix + c.opt = 0 /\ ~c.pct /\ c.scale = 0
           /\ c.pct => c.scale = 0

Init == /\ secs = <<>> /\ cur = <<>> /\ phase = "start" /\ chosen = ""
        /\ left \in IF MODE = "numexh" \/ MODE = "dateexh" THEN {1} ELSE 1..4

\* exhaustive: one section, all placeholder shapes
NumExh == /\ phase = "start"
          /\ \E i \in Ints, fx \in Fixs, op \in Opts, pc \in Pcts, ex \in Exps, sc \in 0..2, a \in Lits, b \in Lits :
               LET c == Num(<<a>>, i, fx, op, pc, ex, sc, <<b>>) IN
               /\ Good(c) /\ Emit(<<c>>) /\ phase' = "done"
          /\ UNCHANGED <<secs, cur, left, chosen>>

\* exhaustive: date fields, all short sequences with a separator between
DateOK(ts) == \* minutes only where the code says so beyond doubt
  /\ \E j \in 1..Len(ts) : IsF(ts[j])
  /\ \A i \in 1..Len(ts) : (ts[i].k = "fld" /\ ts[i].f \in MinMon) =>
       /\ Before(ts, i) \notin SecF
       /\ ~(\E j \in 1..Len(ts) : j < i /\ ts[j].k = "fld" /\ ts[j].f \in ApF /\ Before(ts, i) \in HourF /\ Before(ts, j) = Before(ts, i))
       /\ ~(Before(ts, i) \in MinMon \cup {"[m]", "[mm]"} /\ After(ts, i) \in SecF)
  /\ Cardinality({j \in 1..Len(ts) : ts[j].k = "fld" /\ ts[j].f \in ApF}) <= 1
Seps == {"none", "minus", "slash", "colon", "space", "quoted", "esc"}
SepTok(s) == LitTab[s]
\* letters of the same kind side by side would be one field
Letters == {{"yy", "yyyy"}, {"m", "mm", "mmm", "mmmm"}, {"d", "dd", "ddd", "dddd"}, {"h", "hh"}, {"s", "ss"}}
Clash(ts, f) == ts # <<>> /\ Last(ts).k = "fld"
                /\ (f \in ApF \/ Last(ts).f \in ApF \cup FracF \/ \E g \in Letters : f \in g /\ Last(ts).f \in g)
AddField == \E f \in Fields :
              /\ Len(cur) < MaxToks /\ ~Clash(cur, f)
              /\ cur' = Append(cur, F(f))
AddFrac == \E f \in FracF : /\ cur # <<>> /\ Last(cur).k = "fld" /\ Last(cur).f \in SecF
                            /\ cur' = Append(cur, F(f))
AddSep == \E s \in Seps \ {"none"} : /\ cur # <<>> /\ Last(cur).k = "fld" /\ cur' = Append(cur, SepTok(s))
DateC(up, pre) == [k |-> "date", ts |-> cur, up |-> up, pre |-> pre]
DateExh == /\ phase = "start"
           /\ \/ (AddField \/ AddFrac \/ AddSep) /\ Len(cur') <= MaxToks /\ UNCHANGED phase
              \/ /\ DateOK(cur) /\ phase' = "done" /\ UNCHANGED cur
                 /\ \A up \in BOOLEAN : Emit(<<DateC(up, <<>>)>>)
           /\ UNCHANGED <<secs, left, chosen>>

\* random: one to four sections, each grown in stages
Kinds == IF Len(secs) = 0 THEN {"num", "num2", "date", "text", "gen", "lit"}
         ELSE IF Len(secs) = 3 THEN {"lit", "text"}
         ELSE IF left = 1 THEN {"num", "lit", "text", "gen"} ELSE {"num", "lit", "gen"}
PickKind == /\ phase = "start" /\ left > 0
            /\ \E k \in Kinds :
                 /\ chosen' = k
                 /\ phase' = IF k = "date" THEN "date" ELSE IF k \in {"num", "num2"} THEN "int" ELSE "edge"
            /\ cur' = <<>> /\ UNCHANGED <<secs, left>>
PickInt == /\ phase = "int" /\ \E i \in DOMAIN IntSrc, fx \in 0..4, op \in 0..3 : cur' = <<i, fx, op>>
           /\ phase' = "mods" /\ UNCHANGED <<secs, left, chosen>>
PickMods == /\ phase = "mods"
            /\ \E pc \in BOOLEAN, ex \in 0..3, sc \in 0..2 :
                 /\ Good(Num(<<>>, cur[1], cur[2], cur[3], pc, ex, sc, <<>>))
                 /\ cur' = cur \o <<pc, ex, sc>>
            /\ phase' = "edge" /\ UNCHANGED <<secs, left, chosen>>
\* a mods choice may be impossible: fall back to a plain one
PickMods0 == /\ phase = "mods"
             /\ ~Good(Num(<<>>, cur[1], cur[2], cur[3], FALSE, 0, 0, <<>>))
             /\ cur' = <<"z1", 1, 1, FALSE, 0, 0>> /\ phase' = "edge" /\ UNCHANGED <<secs, left, chosen>>
PreLits == DOMAIN LitTab
PickEdge == /\ phase = "edge"
            /\ \E a \in PreLits, b \in PreLits :
                 LET mk == CASE chosen \in {"num", "num2"} -> Num(<<a>>, cur[1], cur[2], cur[3], cur[4], cur[5], cur[6], <<b>>)
                             [] chosen = "lit" -> [k |-> "lit", pre |-> IF a = b THEN <<>> ELSE <<a, b>>]
                             [] chosen = "text" -> [k |-> "text", pre |-> <<a>>, suf |-> <<b>>]
                             [] chosen = "gen" -> [k |-> "gen", pre |-> <<a>>, suf |-> <<b>>]
                 IN secs' = Append(secs, mk)
            /\ left' = left - 1 /\ phase' = "start" /\ cur' = <<>> /\ UNCHANGED chosen
GrowDate == /\ phase = "date"
            /\ \/ (AddField \/ AddFrac \/ AddSep) /\ Len(cur') <= MaxToks /\ UNCHANGED <<phase, secs, left>>
               \/ /\ DateOK(cur)
                  /\ \E up \in BOOLEAN, p \in {"none", "locale", "color", "words"} : secs' = Append(secs, DateC(up, <<p>>))
                  /\ left' = 0 /\ phase' = "datetail" /\ UNCHANGED cur
            /\ UNCHANGED chosen
DateTail == /\ phase = "datetail"
            /\ \E t \in BOOLEAN : secs' = IF t THEN Append(secs, [k |-> "text", pre |-> <<>>, suf |-> <<>>]) ELSE secs
            /\ phase' = "start" /\ cur' = <<>> /\ UNCHANGED <<left, chosen>>
\* a text section ends the code
TextStop == secs # <<>> /\ Last(secs).k = "text"
Finish == /\ phase = "start" /\ secs # <<>> /\ (left = 0 \/ TextStop) /\ phase' = "done"
          /\ Code(secs) # "" /\ Emit(secs)
          /\ UNCHANGED <<secs, cur, left, chosen>>
SimNext == \/ ~TextStop /\ PickKind
           \/ PickInt \/ PickMods \/ PickMods0 \/ PickEdge \/ GrowDate \/ DateTail \/ Finish

Next == CASE MODE = "numexh" -> NumExh [] MODE = "dateexh" -> DateExh [] MODE = "sim" -> SimNext
Spec == Init /\ [][Next]_vars

(* every number is shown by some section of its code, text never by a number's *)
PickOK == phase = "done" /\ secs # <<>> => \A v \in Values : Pick(secs, v).c \in {secs[i] : i \in 1..Len(secs)}
=============================================================================
