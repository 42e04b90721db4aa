---------------------------- MODULE Builtins ----------------------------
(* The number formats every XLS/XLSX file may use without declaring them:
   identifier, format code, the type of value it is for and how it renders.
   Used by Formats (C16), CellType (C04), Dates (C17) and Grid (C03).       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

\* kinds: "general", "text", "fix" (decimals, percent, grouping, parentheses
\* for negatives, currency sign, dash for zero), "sci", "eng", "frac", "date"
N0 == [kind |-> "fix", dec |-> 0, pct |-> FALSE, grp |-> FALSE, par |-> FALSE,
       cur |-> FALSE, dash |-> FALSE]
Fix(code, ty, r) == [code |-> code, type |-> ty, r |-> r, tok |-> <<>>]
Dat(code, tok)   == [code |-> code, type |-> "date", r |-> [N0 EXCEPT !.kind = "date"], tok |-> tok]
K(kind, dec)     == [N0 EXCEPT !.kind = kind, !.dec = dec]

Dec2 == [N0 EXCEPT !.dec = 2]
Grp0 == [N0 EXCEPT !.grp = TRUE]
Grp2 == [Grp0 EXCEPT !.dec = 2]
Par0 == [Grp0 EXCEPT !.par = TRUE]
Par2 == [Grp2 EXCEPT !.par = TRUE]
Pct0 == [N0 EXCEPT !.pct = TRUE]
Pct2 == [Pct0 EXCEPT !.dec = 2]

(* Date tokens.  "Y4","Y2" years; "M1","M2","MON" months; "D1","D2" days;
   "H2" 24-hour clock, "H12" 12-hour clock, "MI" minutes, "SS" seconds,
   "T1" tenths, "EL" hours elapsed since the epoch, "AP" AM or PM, "CAP" its
   Chinese form, "<y>","<m>","<d>","<h>","<i>","<s>" the Chinese unit signs;
   anything else stands for itself.                                         *)
CnYM == <<"Y4", "<y>", "M1", "<m>">>
CnMD == <<"M1", "<m>", "D1", "<d>">>

BuiltIn ==
     0 :> Fix("General", "any", K("general", 0))
  @@ 1 :> Fix("0", "integer", N0)
  @@ 2 :> Fix("0.00", "float", Dec2)
  @@ 3 :> Fix("#,##0", "integer", Grp0)
  @@ 4 :> Fix("#,##0.00", "float", Grp2)
  @@ 9 :> Fix("0%", "float", Pct0)
  @@ 10 :> Fix("0.00%", "float", Pct2)
  @@ 11 :> Fix("0.00E+00", "float", K("sci", 2))
  @@ 12 :> Fix("# ?/?", "float", K("frac", 1))
  @@ 13 :> Fix("# ??/??", "float", K("frac", 2))
  @@ 14 :> Dat("mm-dd-yy", <<"M2", "-", "D2", "-", "Y2">>)
  @@ 15 :> Dat("d-mmm-yy", <<"D1", "-", "MON", "-", "Y2">>)
  @@ 16 :> Dat("d-mmm", <<"D1", "-", "MON">>)
  @@ 17 :> Dat("mmm-yy", <<"MON", "-", "Y2">>)
  @@ 18 :> Dat("h:mm AM/PM", <<"H12", ":", "MI", " ", "AP">>)
  @@ 19 :> Dat("h:mm:ss AM/PM", <<"H12", ":", "MI", ":", "SS", " ", "AP">>)
  @@ 20 :> Dat("h:mm", <<"H2", ":", "MI">>)
  @@ 21 :> Dat("h:mm:ss", <<"H2", ":", "MI", ":", "SS">>)
  @@ 22 :> Dat("m/d/yy h:mm", <<"M1", "/", "D1", "/", "Y2", " ", "H2", ":", "MI">>)
  @@ 37 :> Fix("#,##0 ;(#,##0)", "integer", Par0)
  @@ 38 :> Fix("#,##0 ;[Red](#,##0)", "integer", Par0)
  @@ 39 :> Fix("#,##0.00;(#,##0.00)", "float", Par2)
  @@ 40 :> Fix("#,##0.00;[Red](#,##0.00)", "float", Par2)
  @@ 41 :> Fix("_(* #,##0_);_(* \\(#,##0\\);_(* \"-\"_);_(@_)", "integer", [Par0 EXCEPT !.dash = TRUE])
  @@ 42 :> Fix("_(\"$\"* #,##0_);_(\"$\"* \\(#,##0\\);_(\"$\"* \"-\"_);_(@_)", "integer",
               [Par0 EXCEPT !.dash = TRUE, !.cur = TRUE])
  @@ 43 :> Fix("_(* #,##0.00_);_(* \\(#,##0.00\\);_(* \"-\"??_);_(@_)", "float", [Par2 EXCEPT !.dash = TRUE])
  @@ 44 :> Fix("_(\"$\"* #,##0.00_);_(\"$\"* \\(#,##0.00\\);_(\"$\"* \"-\"??_);_(@_)", "float",
               [Par2 EXCEPT !.dash = TRUE, !.cur = TRUE])
  @@ 45 :> Dat("mm:ss", <<"MI", ":", "SS">>)
  @@ 46 :> Dat("[h]:mm:ss", <<"EL", ":", "MI", ":", "SS">>)
  @@ 47 :> Dat("mmss.0", <<"MI", "SS", ".", "T1">>)
  @@ 48 :> Fix("##0.0E+0", "float", K("eng", 1))
  @@ 49 :> Fix("@", "string", K("text", 0))
  @@ 27 :> Dat("yyyy\"<y>\"m\"<m>\"", CnYM)
  @@ 28 :> Dat("m\"<m>\"d\"<d>\"", CnMD)
  @@ 29 :> Dat("m\"<m>\"d\"<d>\"", CnMD)
  @@ 30 :> Dat("m-d-yy", <<"M1", "-", "D1", "-", "Y2">>)
  @@ 31 :> Dat("yyyy\"<y>\"m\"<m>\"d\"<d>\"", CnYM \o <<"D1", "<d>">>)
  @@ 32 :> Dat("h\"<h>\"mm\"<i>\"", <<"H2", "<h>", "MI", "<i>">>)
  @@ 33 :> Dat("h\"<h>\"mm\"<i>\"ss\"<s>\"", <<"H2", "<h>", "MI", "<i>", "SS", "<s>">>)
  @@ 34 :> Dat("<am>/<pm> h\"<h>\"mm\"<i>\"", <<"CAP", " ", "H12", "<h>", "MI", "<i>">>)
  @@ 35 :> Dat("<am>/<pm> h\"<h>\"mm\"<i>\"ss\"<s>\"", <<"CAP", " ", "H12", "<h>", "MI", "<i>", "SS", "<s>">>)
  @@ 36 :> Dat("yyyy\"<y>\"m\"<m>\"", CnYM)
  @@ 50 :> Dat("yyyy\"<y>\"m\"<m>\"", CnYM)
  @@ 51 :> Dat("m\"<m>\"d\"<d>\"", CnMD)
  @@ 52 :> Dat("yyyy\"<y>\"m\"<m>\"", CnYM)
  @@ 53 :> Dat("m\"<m>\"d\"<d>\"", CnMD)
  @@ 54 :> Dat("m\"<m>\"d\"<d>\"", CnMD)
  @@ 55 :> Dat("<am>/<pm> h\"<h>\"mm\"<i>\"", <<"CAP", " ", "H12", "<h>", "MI", "<i>">>)
  @@ 56 :> Dat("<am>/<pm> h\"<h>\"mm\"<i>\"ss\"<s>\"", <<"CAP", " ", "H12", "<h>", "MI", "<i>", "SS", "<s>">>)
  @@ 57 :> Dat("yyyy\"<y>\"m\"<m>\"", CnYM)
  @@ 58 :> Dat("m\"<m>\"d\"<d>\"", CnMD)
  @@ 59 :> Fix("0", "integer", N0)
  @@ 60 :> Fix("0.00", "float", Dec2)
  @@ 61 :> Fix("#,##0", "integer", Grp0)
  @@ 62 :> Fix("#,##0.00", "float", Grp2)
  @@ 67 :> Fix("0%", "float", Pct0)
  @@ 68 :> Fix("0.00%", "float", Pct2)
  @@ 69 :> Fix("# ?/?", "float", K("frac", 1))
  @@ 70 :> Fix("# ??/??", "float", K("frac", 2))
  @@ 71 :> Dat("d/m/yyyy", <<"D1", "/", "M1", "/", "Y4">>)
  @@ 72 :> Dat("d-mmm-yy", <<"D1", "-", "MON", "-", "Y2">>)
  @@ 73 :> Dat("d-mmm", <<"D1", "-", "MON">>)
  @@ 74 :> Dat("mmm-yy", <<"MON", "-", "Y2">>)
  @@ 75 :> Dat("h:mm", <<"H2", ":", "MI">>)
  @@ 76 :> Dat("h:mm:ss", <<"H2", ":", "MI", ":", "SS">>)
  @@ 77 :> Dat("d/m/yyyy h:mm", <<"D1", "/", "M1", "/", "Y4", " ", "H2", ":", "MI">>)
  @@ 78 :> Dat("mm:ss", <<"MI", ":", "SS">>)
  @@ 79 :> Dat("[h]:mm:ss", <<"EL", ":", "MI", ":", "SS">>)
  @@ 80 :> Dat("mm:ss.0", <<"MI", ":", "SS", ".", "T1">>)
  @@ 81 :> Dat("d/m/bb", <<"D1", "/", "M1", "/", "Y2">>)

Ids      == DOMAIN BuiltIn
NumIds   == {i \in Ids : BuiltIn[i].r.kind \in {"fix", "sci", "eng"}}
DateIds  == {i \in Ids : BuiltIn[i].type = "date"}

(* ---- decimal arithmetic on digit sequences ---- *)
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)   \* concatenate strings
D(n) == ToString(n)
DigStr(ds) == Cat([k \in 1..Len(ds) |-> D(ds[k])])
Strip(ds) == LET nz == {k \in 1..Len(ds) : ds[k] # 0}
             IN IF nz = {} THEN <<0>> ELSE SubSeq(ds, CHOOSE k \in nz : \A m \in nz : k <= m, Len(ds))
IsZero(ds) == \A k \in 1..Len(ds) : ds[k] = 0
Zeros(n) == [k \in 1..n |-> 0]

RECURSIVE IncDigits(_)
IncDigits(ds) == IF ds = <<>> THEN <<1>>
                 ELSE IF Last(ds) < 9 THEN Append(Front(ds), Last(ds) + 1)
                 ELSE Append(IncDigits(Front(ds)), 0)

\* a value is [neg, ip, fp]: sign, integer digits, fraction digits
PadTo(ds, n) == IF Len(ds) >= n THEN ds ELSE ds \o Zeros(n - Len(ds))
\* half way is rounded away from zero; a number has fifteen digits, and where more
\* are written those near half way are not claimed
Near(v, dec) == /\ Len(Strip(v.ip)) + Len(v.fp) > 15
                /\ Len(v.fp) > dec /\ v.fp[dec + 1] \in {4, 5}
RoundTo(v, dec) ==
  LET f  == PadTo(v.fp, dec + 1)
      up == f[dec + 1] >= 5
      ds == v.ip \o SubSeq(f, 1, dec)
      r  == IF up THEN IncDigits(ds) ELSE ds
      m  == Len(r) - dec
  IN [neg |-> v.neg, ip |-> Strip(SubSeq(r, 1, m)), fp |-> SubSeq(r, m + 1, Len(r))]
Hundred(v) == LET f == PadTo(v.fp, 2)
              IN [neg |-> v.neg, ip |-> Strip(v.ip \o SubSeq(f, 1, 2)), fp |-> SubSeq(f, 3, Len(f))]
ZeroV(v) == IsZero(v.ip) /\ IsZero(v.fp)

RECURSIVE Group(_)
Group(ds) == IF Len(ds) <= 3 THEN DigStr(ds)
             ELSE Group(SubSeq(ds, 1, Len(ds) - 3)) \o "," \o DigStr(SubSeq(ds, Len(ds) - 2, Len(ds)))

\* what a "fix" format shows for a value that does not vanish from below
FixClaimed(r, v) ==
  LET s == IF r.pct THEN Hundred(v) ELSE v
  IN ~Near(s, r.dec) /\ ~(v.neg /\ ZeroV(RoundTo(s, r.dec)))
FixRender(r, v) ==
  LET s    == IF r.pct THEN Hundred(v) ELSE v
      w    == RoundTo(s, r.dec)
      body == (IF r.grp THEN Group(w.ip) ELSE DigStr(w.ip))
              \o (IF r.dec > 0 THEN "." \o DigStr(w.fp) ELSE "")
              \o (IF r.pct THEN "%" ELSE "")
      cur  == IF r.cur THEN "$" ELSE ""
  IN IF r.dash /\ ZeroV(v) THEN cur \o "-"
     ELSE IF v.neg THEN IF r.par THEN cur \o "(" \o body \o ")" ELSE "-" \o body
     ELSE cur \o body

(* ---- scientific and engineering notation ---- *)
\* position of the leading digit: exponent e with 10^e <= |v| < 10^(e+1)
Lead(v) == IF ~IsZero(v.ip) THEN Len(Strip(v.ip)) - 1
           ELSE 0 - (CHOOSE k \in 1..Len(v.fp) : v.fp[k] # 0 /\ \A m \in 1..(k - 1) : v.fp[m] = 0)
\* v divided by 10^e
Scale(v, e) ==
  IF e >= 0
  THEN LET ip == Zeros(e) \o v.ip
           m  == Len(ip) - e
       IN [neg |-> v.neg, ip |-> Strip(SubSeq(ip, 1, m)), fp |-> SubSeq(ip, m + 1, Len(ip)) \o v.fp]
  ELSE LET fp == PadTo(v.fp, 0 - e)
       IN [neg |-> v.neg, ip |-> Strip(v.ip \o SubSeq(fp, 1, 0 - e)), fp |-> SubSeq(fp, 1 - e, Len(fp))]
FloorDiv3(e) == IF e >= 0 THEN (e \div 3) * 3 ELSE 0 - (((2 - e) \div 3) * 3)
Exp0(r, v) == IF ZeroV(v) THEN 0 ELSE IF r.kind = "eng" THEN FloorDiv3(Lead(v)) ELSE Lead(v)
Exp(r, v) == LET e == Exp0(r, v)
                 m == RoundTo(Scale(v, e), r.dec)
                 lim == IF r.kind = "eng" THEN 3 ELSE 1
             IN IF Len(Strip(m.ip)) > lim THEN e + lim ELSE e
ExpStr(r, e) == LET a == IF e < 0 THEN 0 - e ELSE e
                    s == IF e < 0 THEN "-" ELSE "+"
                IN "E" \o s \o (IF r.kind = "sci" /\ a < 10 THEN "0" ELSE "") \o D(a)
SciRender(r, v) ==
  LET e == Exp(r, v)
      m == RoundTo(Scale(v, e), r.dec)
  IN (IF v.neg THEN "-" ELSE "") \o DigStr(m.ip) \o "." \o DigStr(m.fp) \o ExpStr(r, e)

SciClaimed(r, v) == ~Near(Scale(v, Exp(r, v)), r.dec)
Claimed(r, v) == IF r.kind = "fix" THEN FixClaimed(r, v) ELSE SciClaimed(r, v)
Render(r, v)  == IF r.kind = "fix" THEN FixRender(r, v) ELSE SciRender(r, v)

\* "General" shows a value of up to eleven characters, sign not counted, as it is
Short(v) == Len(Strip(v.ip)) + Len(v.fp) + (IF v.fp = <<>> THEN 0 ELSE 1) <= 11

\* the plain decimal numeral, shortest form (the "General" form of short values)
RECURSIVE TrimR(_)
TrimR(ds) == IF ds # <<>> /\ Last(ds) = 0 THEN TrimR(Front(ds)) ELSE ds
Plain(v) == (IF v.neg THEN "-" ELSE "") \o DigStr(Strip(v.ip))
            \o (IF TrimR(v.fp) = <<>> THEN "" ELSE "." \o DigStr(TrimR(v.fp)))
=============================================================================
