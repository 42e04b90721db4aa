------------------------------- MODULE Xml -------------------------------
(* What the parts of an XLSX package say, whatever they hold: a reader of the
   elements the library supports.  A part is a sequence of events - start, end,
   text -; one that is not well-formed, or cannot be read, is refused.  Values
   that are looked into (references, numbers, texts) are sequences of character
   codes; the others are strings.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

St(n, a) == [k |-> "start", n |-> n, a |-> a, t |-> <<>>]
En(n) == [k |-> "end", n |-> n, a |-> <<>>, t |-> <<>>]
Tx(t) == [k |-> "text", n |-> "", a |-> <<>>, t |-> t]
AS(n, s) == [n |-> n, s |-> s, c |-> <<>>]
AC(n, c) == [n |-> n, s |-> "", c |-> c]
Has(e, n) == \E i \in 1..Len(e.a) : e.a[i].n = n
Attr(e, n) == IF Has(e, n) THEN e.a[CHOOSE i \in 1..Len(e.a) : e.a[i].n = n] ELSE AS(n, "")
Str(e, n) == Attr(e, n).s
Cod(e, n) == Attr(e, n).c

\* every start has its end, and there is a root
RECURSIVE Formed(_, _, _)
Formed(ev, k, stack) ==
  IF k > Len(ev) THEN stack = <<>>
  ELSE IF ev[k].k = "start" THEN Formed(ev, k + 1, Append(stack, ev[k].n))
  ELSE IF ev[k].k = "end" THEN stack # <<>> /\ stack[Len(stack)] = ev[k].n /\ Formed(ev, k + 1, SubSeq(stack, 1, Len(stack) - 1))
  ELSE Formed(ev, k + 1, stack)
RECURSIVE EndOf(_, _, _)
EndOf(ev, k, d) == LET d2 == d + (IF ev[k].k = "start" THEN 1 ELSE IF ev[k].k = "end" THEN -1 ELSE 0)
                   IN IF d2 = 0 THEN k ELSE EndOf(ev, k + 1, d2)

\* ---- values ----
Digit(x) == x \in 48..57
RECURSIVE Num(_, _)
\* digits to a number, saturated
Big == 100000000
Num(c, n) == IF c = <<>> THEN n ELSE IF n >= Big THEN Big ELSE Num(Tail(c), 10 * n + Head(c) - 48)
AllDigits(c) == c # <<>> /\ \A i \in 1..Len(c) : Digit(c[i])
\* an integer as the library reads one: invalid is 0, too large saturates
IntOf(c) == IF c = <<>> THEN 0
          ELSE IF c[1] = 45 THEN IF AllDigits(Tail(c)) THEN 0 - Num(Tail(c), 0) ELSE 0
          ELSE IF AllDigits(c) THEN Num(c, 0) ELSE 0
\* a format number: 16 bits
Fno(c) == IF ~AllDigits(c) THEN 0 ELSE IF Num(c, 0) > 65535 THEN 65535 ELSE Num(c, 0)
\* decimal numbers; anything else used here is text
Decimal(c) == LET b == IF c # <<>> /\ c[1] = 45 THEN Tail(c) ELSE c
                  dots == {i \in 1..Len(b) : b[i] = 46}
                  ds == {i \in 1..Len(b) : Digit(b[i])}
              IN ds # {} /\ Cardinality(dots) <= 1 /\ Cardinality(dots) + Cardinality(ds) = Len(b)
MaxRows == 1048576
MaxCols == 16384
Upper(x) == x \in 65..90
RECURSIVE Letters(_, _)
Letters(c, n) == IF c = <<>> THEN n ELSE Letters(Tail(c), 26 * n + Head(c) - 64)
Bad == [c |-> -1, r |-> -1]
\* a cell reference: letters, then digits; or row and column numbers
Ref(c) == LET ds == {i \in 1..Len(c) : Digit(c[i])} IN
  IF ds = {} THEN Bad
  ELSE LET i == CHOOSE x \in ds : \A y \in ds : x <= y
           l == SubSeq(c, 1, i - 1)
           d == SubSeq(c, i, Len(c))
           cs == {j \in 1..Len(d) : d[j] = 67} IN
       IF cs # {}
       THEN LET j == CHOOSE x \in cs : \A y \in cs : x <= y
                rd == SubSeq(d, 1, j - 1)
                cd == SubSeq(d, j + 1, Len(d))
            IN IF l # <<82>> \/ ~AllDigits(rd) \/ ~AllDigits(cd) THEN Bad
               ELSE IF Num(rd, 0) \in 1..MaxRows /\ Num(cd, 0) \in 1..MaxCols THEN [c |-> Num(cd, 0) - 1, r |-> Num(rd, 0) - 1] ELSE Bad
       ELSE IF l = <<>> \/ Len(l) > 3 \/ (\E j \in 1..Len(l) : ~Upper(l[j])) \/ ~AllDigits(d) THEN Bad
       ELSE LET col == Letters(l, 0) - 1
                row == Num(d, 0) - 1
            IN IF col >= MaxCols \/ row < 0 \/ row >= MaxRows THEN Bad ELSE [c |-> col, r |-> row]
RECURSIVE Split(_, _)
Split(c, cur) == IF c = <<>> THEN <<cur>> ELSE IF Head(c) = 58 THEN <<cur>> \o Split(Tail(c), <<>>) ELSE Split(Tail(c), Append(cur, Head(c)))
Space == {9, 10, 13, 32}
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ Head(s) \in Space THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] \in Space THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s

\* ---- relationships: a function from identifiers, per type ----
RECURSIVE Rels(_, _, _)
Rels(ev, k, out) == IF k > Len(ev) THEN out
  ELSE IF ev[k].k = "start" /\ ev[k].n = "Relationship"
       THEN Rels(ev, k + 1, Append(out, [id |-> Str(ev[k], "Id"), type |-> Str(ev[k], "Type"), to |-> Str(ev[k], "Target"), ext |-> Str(ev[k], "TargetMode") = "External"]))
       ELSE Rels(ev, k + 1, out)
Lookup(rels, type, id) == LET at == {i \in 1..Len(rels) : rels[i].type = type /\ rels[i].id = id}
                          IN IF at = {} THEN "" ELSE rels[CHOOSE i \in at : \A j \in at : j <= i].to

\* ---- the workbook ----
RECURSIVE Book(_, _, _)
Book(ev, k, b) == IF k > Len(ev) \/ b.err THEN b
  ELSE LET e == ev[k] IN
    IF e.k # "start" THEN Book(ev, k + 1, b)
    ELSE IF e.n = "sheet" THEN IF Has(e, "id") /\ Has(e, "name") THEN Book(ev, k + 1, [b EXCEPT !.shs = Append(@, [name |-> Str(e, "name"), id |-> Str(e, "id")])])
                               ELSE [b EXCEPT !.err = TRUE]
    ELSE Book(ev, k + 1, b)

\* ---- styles: format numbers by cell style ----
RECURSIVE Styles(_, _, _)
Styles(ev, k, s) == IF k > Len(ev) THEN s
  ELSE LET e == ev[k] IN
    Styles(ev, k + 1,
      IF e.k = "end" THEN IF e.n \in {"cellStyleXfs", "cellXfs"} THEN [s EXCEPT !.sec = 0] ELSE s
      ELSE IF e.k = "text" THEN s
      ELSE CASE e.n = "cellStyleXfs" -> [s EXCEPT !.sec = 1]
             [] e.n = "cellXfs" -> [s EXCEPT !.sec = 2, !.xfs = <<>>]
             [] e.n = "xf" -> IF s.sec # 2 THEN s
                              ELSE [s EXCEPT !.xfs = Append(@, IF Cod(e, "applyNumberFormat") = <<48>> THEN 0 ELSE Fno(Cod(e, "numFmtId")))]
             [] OTHER -> s)

\* ---- shared strings ----
RECURSIVE Shared(_, _, _)
Shared(ev, k, s) == IF k > Len(ev) THEN s.out
  ELSE LET e == ev[k] IN
    Shared(ev, k + 1,
      IF e.k = "text" THEN IF s.t /\ ~s.ph THEN [s EXCEPT !.val = @ \o e.t] ELSE s
      ELSE IF e.k = "start" THEN CASE e.n = "si" -> [s EXCEPT !.val = <<>>] [] e.n = "t" -> [s EXCEPT !.t = TRUE] [] e.n = "rPh" -> [s EXCEPT !.ph = TRUE] [] OTHER -> s
      ELSE CASE e.n = "si" -> [s EXCEPT !.out = Append(@, s.val)] [] e.n = "t" -> [s EXCEPT !.t = FALSE] [] e.n = "rPh" -> [s EXCEPT !.ph = FALSE] [] OTHER -> s)

\* ---- a sheet ----
Eff(o, r, c, x, v, s) == [o |-> o, r |-> r, c |-> c, x |-> x, v |-> v, s |-> s]
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
Put(st, e) == [st EXCEPT !.eff = Append(@, e), !.nr = MaxOf(@, e.r + 1), !.nc = MaxOf(@, e.c + 1)]
NoSheet == [t |-> FALSE, ph |-> FALSE, text |-> <<>>, at |-> Bad, row |-> 0, col |-> 0, ct |-> "", x |-> 0, mr |-> 0, mc |-> 0, nr |-> 0, nc |-> 0, eff |-> <<>>, err |-> FALSE]
TheCell(st, strs) ==
  LET at == st.at
      p(o, v) == Put(st, Eff(o, at.r, at.c, st.x, v, "")) IN
  IF st.text = <<>> \/ at.c < 0 THEN st
  ELSE CASE st.ct = "b" -> p("bool", <<IF st.text \in {<<49>>, <<116, 114, 117, 101>>} THEN 1 ELSE 0>>)
         [] st.ct = "s" -> LET d == TrimL(TrimR(st.text)) IN
                           IF ~AllDigits(d) THEN [st EXCEPT !.err = TRUE]
                           ELSE IF Num(d, 0) >= Len(strs) THEN [st EXCEPT !.err = TRUE]
                           ELSE p("text", strs[Num(d, 0) + 1])
         [] st.ct \in {"", "n"} -> p(IF Decimal(st.text) THEN "num" ELSE "text", st.text)
         [] OTHER -> p("text", st.text)
Element(st, e, xfs, links) ==
  CASE e.n = "dimension" ->
         LET ds == Split(Cod(e, "ref"), <<>>)
             at == Ref(IF Len(ds) = 1 THEN ds[1] ELSE ds[2])
         IN [st EXCEPT !.mr = at.r, !.mc = at.c, !.nr = MaxOf(1, MaxOf(@, at.r)), !.nc = MaxOf(1, MaxOf(@, at.c))]
    \* rows and cells without a reference follow the one before
    [] e.n = "row" -> LET r == Cod(e, "r")
                          whole == AllDigits(r) \/ (r # <<>> /\ r[1] = 45 /\ AllDigits(Tail(r)))
                      IN [st EXCEPT !.row = IF whole THEN IntOf(r) ELSE @ + 1, !.col = 0]
    [] e.n = "c" -> LET i == IntOf(Cod(e, "s"))
                        r == Cod(e, "r")
                        at == IF r # <<>> THEN Ref(r)
                              ELSE IF st.row \in 1..MaxRows /\ st.col + 1 <= MaxCols THEN [c |-> st.col, r |-> st.row - 1] ELSE Bad
                        moved == r # <<>> /\ at.c >= 0 IN
                    [st EXCEPT !.ct = Str(e, "t"), !.at = at, !.text = <<>>, !.x = IF i >= 0 /\ i < Len(xfs) THEN xfs[i + 1] ELSE 0,
                               !.col = IF moved THEN at.c + 1 ELSE @ + 1, !.row = IF moved THEN at.r + 1 ELSE @]
    [] e.n \in {"v", "t"} -> [st EXCEPT !.t = TRUE]
    [] e.n = "rPh" -> [st EXCEPT !.ph = TRUE]
    [] e.n = "mergeCell" ->
         LET ds == Split(Cod(e, "ref"), <<>>)
             a == Ref(ds[1])
             z == IF Len(ds) > 1 THEN Ref(ds[2]) ELSE a
             mr == MaxOf(st.mr, st.nr - 1)
             mc == MaxOf(st.mc, st.nc - 1)
             r2 == MinOf(z.r, mr)
             c2 == MinOf(z.c, mc)
         IN IF a.c < 0 THEN st
            ELSE LET s2 == [st EXCEPT !.mr = mr, !.mc = mc] IN
                 IF r2 < a.r \/ c2 < a.c THEN s2
                 ELSE [Put(s2, Eff("merge", a.r, a.c, 0, <<r2, c2>>, "")) EXCEPT
                         !.nr = IF r2 = a.r /\ c2 = a.c THEN s2.nr ELSE MaxOf(s2.nr, r2 + 1),
                         !.nc = IF r2 = a.r /\ c2 = a.c THEN s2.nc ELSE MaxOf(s2.nc, c2 + 1)]
    [] e.n = "hyperlink" ->
         LET at == Ref(Split(Cod(e, "ref"), <<>>)[1])
             have == {i \in 1..Len(links) : links[i].ext /\ links[i].type = "hyperlink" /\ links[i].id = Str(e, "id")}
         IN IF have = {} \/ at.c < 0 THEN st
            ELSE Put(st, Eff("link", at.r, at.c, 0, <<>>, links[CHOOSE i \in have : \A j \in have : j <= i].to))
    [] OTHER -> st
RECURSIVE Sheet(_, _, _, _, _, _)
Sheet(ev, k, st, xfs, strs, links) == IF k > Len(ev) \/ st.err THEN st
  ELSE LET e == ev[k] IN
    Sheet(ev, k + 1,
      IF e.k = "text" THEN IF st.t /\ ~st.ph THEN [st EXCEPT !.text = @ \o e.t] ELSE st
      ELSE IF e.k = "start" THEN Element(st, e, xfs, links)
      ELSE CASE e.n = "c" -> [TheCell(st, strs) EXCEPT !.at = Bad]
             [] e.n \in {"v", "t"} -> [st EXCEPT !.t = FALSE]
             [] e.n = "rPh" -> [st EXCEPT !.ph = FALSE]
             [] OTHER -> st, xfs, strs, links)
=============================================================================
