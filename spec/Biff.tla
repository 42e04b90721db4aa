------------------------------- MODULE Biff -------------------------------
(* What the bytes of a workbook stream say, whatever they are: a reader of the
   records of BIFF8 as far as the library supports it, byte by byte, with every
   length, count and reference checked against what is there.  A stream that
   cannot be read is refused as a whole, a sheet that cannot be read is refused
   on its own.                                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* integers above 2^30 all count as Huge
Huge == 1073741824
Byte(b, p) == b[p + 1]
U16(b, p) == Byte(b, p) + 256 * Byte(b, p + 1)
U32(b, p) == IF Byte(b, p + 3) >= 64 THEN Huge ELSE U16(b, p) + 65536 * U16(b, p + 2)
From(b, p) == SubSeq(b, p + 1, Len(b))
Part(b, p, n) == SubSeq(b, p + 1, p + n)
Bit(x, k) == (x \div k) % 2 = 1
MinN(a, b) == IF a < b THEN a ELSE b
MaxN(a, b) == IF a > b THEN a ELSE b

E16(n) == <<n % 256, n \div 256>>
E32(n) == E16(n % 65536) \o E16(n \div 65536)
Encode(r) == E16(r.t) \o E16(Len(r.d)) \o r.d
RECURSIVE EncodeAll(_)
EncodeAll(rs) == IF rs = <<>> THEN <<>> ELSE Encode(Head(rs)) \o EncodeAll(Tail(rs))

tFormula == 6          tEOF == 10        tDate1904 == 34     tFilePass == 47    tContinue == 60
tCodePage == 66        tWsBool == 129    tBoundSheet == 133  tMulRk == 189      tXF == 224
tMerge == 229          tSST == 252       tLabelSst == 253    tHLink == 440      tDimensions == 512
tNumber == 515         tBoolErr == 517   tString == 519      tRK == 638         tFormat == 1054      tBOF == 2057

\* the fields read of a record of fixed layout reach so far
Need(t) == CASE t = tWsBool -> 1 [] t = tDimensions -> 12 [] t = tBoolErr -> 8 [] t = tMulRk -> 6 [] t = tNumber -> 14
             [] t = tRK -> 10 [] t = tFormula -> 14 [] t = tString -> 2 [] t = tLabelSst -> 10 [] t = tHLink -> 32 [] t = tMerge -> 2
             [] OTHER -> 0
NeedGlobal(t) == CASE t = tCodePage -> 2 [] t = tDate1904 -> 2 [] t = tFormat -> 5 [] t = tXF -> 4 [] t = tBoundSheet -> 8 [] t = tSST -> 8
                   [] OTHER -> 0

\* ---- strings ----
Units(b, p, n, wide) == [k \in 1..n |-> IF wide THEN U16(b, p + 2 * (k - 1)) ELSE Byte(b, p + k - 1)]
\* n characters after their flag byte at p, all in the record
Flat(b, p, n) == LET wide == Bit(Byte(b, p), 1) IN
                 IF p + 1 + (IF wide THEN 2 * n ELSE n) > Len(b) THEN [ok |-> FALSE, s |-> <<>>]
                 ELSE [ok |-> TRUE, s |-> Units(b, p + 1, n, wide)]

\* the string table: ds is what is left of the records' data, b of the first of
\* them; header, characters, then what follows the characters, skipped
RECURSIVE SstNext(_, _), SstChars(_, _, _, _, _, _, _), SstSkip(_, _, _, _, _)
Bad(out) == [ok |-> FALSE, out |-> out]
SstNext(ds, out) ==
  IF ds = <<>> THEN [ok |-> TRUE, out |-> out]
  ELSE LET b == Head(ds) IN
    IF b = <<>> THEN SstNext(Tail(ds), out)
    ELSE IF Len(b) < 3 THEN Bad(out)
    ELSE LET fl == Byte(b, 2)
             hr == IF Bit(fl, 8) THEN 2 ELSE 0
             he == IF Bit(fl, 4) THEN 4 ELSE 0 IN
         IF Len(b) < 3 + hr + he THEN Bad(out)
         ELSE SstChars(From(b, 3 + hr + he), Tail(ds), U16(b, 0), <<>>, Bit(fl, 1), [runs |-> IF hr > 0 THEN 4 * U16(b, 3) ELSE 0,
                        ext |-> IF he > 0 THEN U32(b, 3 + hr) ELSE 0], out)
SstChars(b, ds, n, acc, wide, sk, out) ==
  IF Len(acc) = n THEN SstSkip(b, ds, sk.runs, sk.ext, Append(out, acc))
  ELSE IF b = <<>> THEN IF ds = <<>> THEN Bad(out) ELSE IF Head(ds) = <<>> THEN Bad(out)
                        ELSE SstChars(From(Head(ds), 1), Tail(ds), n, acc, Bit(Byte(Head(ds), 0), 1), sk, out)
  ELSE IF wide
       THEN IF Len(b) = 1 THEN Bad(out)
            ELSE LET k == MinN(n - Len(acc), Len(b) \div 2) IN SstChars(From(b, 2 * k), ds, n, acc \o Units(b, 0, k, TRUE), wide, sk, out)
       ELSE LET k == MinN(n - Len(acc), Len(b)) IN SstChars(From(b, k), ds, n, acc \o Units(b, 0, k, FALSE), wide, sk, out)
\* formatting runs and phonetic data go on over the ends of records, both as one
SstSkip(b, ds, runs, ext, out) ==
  IF runs + ext = 0 THEN SstNext(<<b>> \o ds, out)
  ELSE IF Len(b) >= runs + ext THEN SstNext(<<From(b, runs + ext)>> \o ds, out)
  ELSE IF ds = <<>> THEN Bad(out)
  ELSE LET k == MinN(Len(b), runs) IN SstSkip(Head(ds), Tail(ds), runs - k, ext - (Len(b) - k), out)
Table(ds) == SstNext(<<From(Head(ds), 8)>> \o Tail(ds), <<>>)

\* ---- links: texts of 16-bit characters with a 4-byte count ----
HStr(b, p) == IF p + 4 > Len(b) THEN [ok |-> FALSE, s |-> <<>>, p |-> p]
              ELSE LET n == U32(b, p) IN
                   IF n > Len(b) \/ p + 4 + 2 * n > Len(b) THEN [ok |-> FALSE, s |-> <<>>, p |-> p]
                   ELSE [ok |-> TRUE, s |-> Units(b, p + 4, n, TRUE), p |-> p + 4 + 2 * n]
UrlMoniker == <<224, 201, 234, 121, 249, 186, 206, 17, 140, 130, 0, 170, 0, 75, 169, 11>>
FileMoniker == <<3, 3, 0, 0, 0, 0, 0, 0, 192, 0, 0, 0, 0, 0, 0, 70>>
NoStr(p) == [ok |-> FALSE, s |-> <<>>, p |-> p]
Moniker(b, p) ==
  IF p + 16 > Len(b) THEN NoStr(p)
  ELSE LET id == Part(b, p, 16) IN
    IF id = UrlMoniker
    THEN IF p + 20 > Len(b) THEN NoStr(p)
         ELSE LET n == U32(b, p + 16) \div 2 IN
              IF n > Len(b) \/ p + 20 + 2 * n > Len(b) THEN NoStr(p)
              ELSE LET s == Units(b, p + 20, n, TRUE)
                   IN [ok |-> TRUE, s |-> IF n > 12 /\ s[n - 12] = 0 THEN SubSeq(s, 1, n - 12) ELSE s, p |-> p + 20 + 2 * n]
    ELSE IF id = FileMoniker
    THEN IF p + 22 > Len(b) THEN NoStr(p)
         ELSE LET a == U32(b, p + 18) IN
              IF a > Len(b) \/ p + 22 + a + 28 > Len(b) THEN NoStr(p)
              ELSE LET q == p + 22 + a + 28
                       w == U32(b, q - 4) IN
                   IF w = 0 THEN [ok |-> TRUE, s |-> Units(b, p + 22, a, FALSE), p |-> q]
                   ELSE IF w < 6 \/ w > Len(b) \/ q + w > Len(b) THEN NoStr(p)
                   ELSE [ok |-> TRUE, s |-> Units(b, q + 6, (w - 6) \div 2, TRUE), p |-> q + 6 + 2 * ((w - 6) \div 2)]
    ELSE NoStr(p)
Blank == {0, 9, 10, 11, 12, 13, 32}
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ Head(s) \in Blank THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] \in Blank THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))
Link(b) ==   \* from the class id on
  LET has(k) == Bit(U16(b, 20), k)
      none(p) == [ok |-> TRUE, s |-> <<>>, p |-> p]
      d == IF has(16) THEN HStr(b, 24) ELSE none(24)
      f == IF ~d.ok THEN d ELSE IF has(128) THEN HStr(b, d.p) ELSE none(d.p)
      m == IF ~f.ok THEN f ELSE IF ~has(1) THEN none(f.p) ELSE IF has(256) THEN HStr(b, f.p) ELSE Moniker(b, f.p)
      l == IF ~m.ok THEN m ELSE IF has(8) THEN HStr(b, m.p) ELSE none(m.p)
      target == Trim(m.s)
  IN IF U32(b, 16) # 2 \/ ~l.ok THEN [ok |-> FALSE, d |-> <<>>, l |-> <<>>]
     ELSE [ok |-> TRUE, d |-> Trim(d.s), l |-> Trim(IF ~has(8) THEN m.s ELSE IF target = <<>> THEN l.s ELSE target \o <<35>> \o l.s)]

\* ---- a sheet: effects on its cells, in order ----
MaxRows == 65536
MaxCols == 256
RECURSIVE StrUnits(_, _, _, _)
\* a formula's text: k-th record and the CONTINUE records after it
StrUnits(rs, k, n, acc) ==
  LET b == IF rs[k].t = tString THEN From(rs[k].d, 2) ELSE rs[k].d
      wide == b # <<>> /\ Bit(Byte(b, 0), 1)
      m == IF b = <<>> THEN 0 ELSE MinN(n - Len(acc), IF wide THEN (Len(b) - 1) \div 2 ELSE Len(b) - 1)
      a2 == IF m = 0 THEN acc ELSE acc \o Units(b, 1, m, wide)
  IN IF Len(a2) < n /\ k < Len(rs) /\ rs[k + 1].t = tContinue THEN StrUnits(rs, k + 1, n, a2) ELSE a2

Eff(o, r, c, x, v) == [o |-> o, r |-> r, c |-> c, x |-> x, v |-> v]
\* st: [eff, rows, cols, r, c, str, err, done, nest]
Start == [eff |-> <<>>, rows |-> 0, cols |-> 0, r |-> 0, c |-> 0, str |-> FALSE, err |-> FALSE, nest |-> 0]
Xf(g, b) == LET i == U16(b, 4) IN IF i < Len(g.xfs) THEN g.xfs[i + 1] ELSE 0
Add(st, e) == [st EXCEPT !.eff = Append(@, e)]
RECURSIVE MulRks(_, _, _, _)
MulRks(st, g, b, k) == IF k = (Len(b) - 6) \div 6 THEN st
  ELSE LET o == 4 + 6 * k
           i == U16(b, o)
       IN MulRks(Add(st, Eff("rk", U16(b, 0), U16(b, 2) + k, IF i < Len(g.xfs) THEN g.xfs[i + 1] ELSE 0, Part(b, o + 2, 4))), g, b, k + 1)
RECURSIVE Merges(_, _, _)
Merges(st, b, k) == IF k = 0 THEN st
  ELSE IF Len(b) < 8 THEN [st EXCEPT !.err = TRUE]
  ELSE LET r2 == IF U16(b, 2) = 65535 THEN st.rows - 1 ELSE U16(b, 2)
           c2 == IF U16(b, 6) = 255 THEN st.cols - 1 ELSE MinN(U16(b, 6), MaxCols - 1)
       IN Merges(Add(st, Eff("merge", U16(b, 0), U16(b, 4), 0, <<r2, c2>>)), From(b, 8), k - 1)
Apply(st, g, rs, k) ==
  LET t == rs[k].t
      b == rs[k].d
      row == U16(b, 0)
      col == U16(b, 2) IN
  IF st.err THEN st
  ELSE IF st.nest > 0 THEN IF t = tBOF THEN [st EXCEPT !.nest = @ + 1] ELSE IF t = tEOF THEN [st EXCEPT !.nest = @ - 1] ELSE st
  ELSE IF t = tBOF THEN IF k > 1 THEN [st EXCEPT !.nest = 1] ELSE st
  ELSE IF Len(b) < Need(t) THEN [st EXCEPT !.err = TRUE]
  ELSE CASE t = tBoolErr -> Add(st, IF Byte(b, 7) = 0 THEN Eff("bool", row, col, Xf(g, b), <<IF Byte(b, 6) = 1 THEN 1 ELSE 0>>)
                                     ELSE Eff("error", row, col, 0, <<Byte(b, 6)>>))
         [] t = tMulRk -> MulRks(st, g, b, 0)
         [] t = tNumber -> Add(st, Eff("f64", row, col, Xf(g, b), Part(b, 6, 8)))
         [] t = tRK -> Add(st, Eff("rk", row, col, Xf(g, b), Part(b, 6, 4)))
         [] t = tFormula ->
              LET s == [st EXCEPT !.r = row, !.c = col, !.str = FALSE] IN
              IF ~(Byte(b, 12) = 255 /\ Byte(b, 13) = 255) THEN Add(s, Eff("f64", row, col, Xf(g, b), Part(b, 6, 8)))
              ELSE CASE Byte(b, 6) = 0 -> [Add(s, Eff("text", row, col, Xf(g, b), <<>>)) EXCEPT !.str = TRUE]
                     [] Byte(b, 6) = 1 -> Add(s, Eff("bool", row, col, Xf(g, b), <<IF Byte(b, 8) # 0 THEN 1 ELSE 0>>))
                     [] Byte(b, 6) = 2 -> Add(s, Eff("error", row, col, 0, <<Byte(b, 8)>>))
                     [] OTHER -> s
         [] t = tString -> IF st.str THEN [Add(st, Eff("set", st.r, st.c, 0, StrUnits(rs, k, U16(b, 0), <<>>))) EXCEPT !.str = FALSE] ELSE st
         [] t = tLabelSst -> IF U32(b, 6) >= Len(g.strs) THEN [st EXCEPT !.err = TRUE]
                             ELSE LET s == g.strs[U32(b, 6) + 1] IN IF s = <<>> THEN st ELSE Add(st, Eff("text", row, col, Xf(g, b), s))
         [] t = tHLink -> IF U16(b, 4) > st.cols \/ row > st.rows THEN st
                          ELSE LET l == Link(From(b, 8))
                                   r2 == IF U16(b, 2) = 65535 THEN st.rows - 1 ELSE U16(b, 2)
                                   c2 == IF U16(b, 6) = 255 THEN st.cols - 1 ELSE MinN(U16(b, 6), MaxCols - 1)
                               IN IF ~l.ok THEN st
                                  ELSE IF row > r2 \/ U16(b, 4) > c2 THEN st
                                  ELSE Add(Add(st, Eff("text", row, U16(b, 4), 0, l.d \o <<32, 60>> \o l.l \o <<62>>)),
                                           Eff("merge", row, U16(b, 4), 0, <<r2, c2>>))
         [] t = tMerge -> Merges(st, From(b, 2), U16(b, 0))
         [] OTHER -> st
\* the dimensions count from the start; a dialog has no cells
RECURSIVE Dims(_, _, _)
Dims(st, rs, k) ==
  IF k > Len(rs) \/ st.err THEN [st |-> [st EXCEPT !.nest = 0], dialog |-> FALSE]
  ELSE LET t == rs[k].t
           b == rs[k].d IN
       IF st.nest > 0 THEN Dims(IF t = tBOF THEN [st EXCEPT !.nest = @ + 1] ELSE IF t = tEOF THEN [st EXCEPT !.nest = @ - 1] ELSE st, rs, k + 1)
       ELSE IF t = tBOF THEN Dims(IF k > 1 THEN [st EXCEPT !.nest = 1] ELSE st, rs, k + 1)
       ELSE IF t \in {tWsBool, tDimensions} /\ Len(b) < Need(t) THEN [st |-> [st EXCEPT !.err = TRUE], dialog |-> FALSE]
       ELSE IF t = tWsBool /\ Bit(Byte(b, 0), 16) THEN [st |-> st, dialog |-> TRUE]
       ELSE IF t = tDimensions THEN Dims([st EXCEPT !.rows = MinN(U32(b, 4), MaxRows), !.cols = MinN(U16(b, 10), MaxCols)], rs, k + 1)
       ELSE Dims(st, rs, k + 1)
RECURSIVE ApplyAll(_, _, _, _)
ApplyAll(st, g, rs, k) == IF k > Len(rs) THEN st ELSE ApplyAll(Apply(st, g, rs, k), g, rs, k + 1)
Sheet(g, rs) == LET d == Dims(Start, rs, 1) IN
                IF d.st.err THEN [err |-> TRUE, eff |-> <<>>, rows |-> 0, cols |-> 0]
                ELSE IF d.dialog THEN [err |-> FALSE, eff |-> <<>>, rows |-> d.st.rows, cols |-> d.st.cols]
                ELSE LET s == ApplyAll(d.st, g, rs, 1) IN [err |-> s.err, eff |-> IF s.err THEN <<>> ELSE s.eff, rows |-> s.rows, cols |-> s.cols]

\* ---- the globals, one record at a time ----
NoGlobals == [xfs |-> <<>>, strs |-> <<>>, shs |-> <<>>, err |-> FALSE]
RECURSIVE Conts(_, _)
Conts(rs, k) == IF k <= Len(rs) /\ rs[k].t = tContinue THEN <<rs[k].d>> \o Conts(rs, k + 1) ELSE <<>>
Global(g, rs, k) ==
  LET t == rs[k].t
      b == rs[k].d IN
  IF g.err \/ b = <<>> THEN g
  ELSE IF Len(b) < NeedGlobal(t) THEN [g EXCEPT !.err = TRUE]
  ELSE CASE t = tXF -> [g EXCEPT !.xfs = Append(@, U16(b, 2))]
         [] t = tFormat -> IF Flat(b, 4, U16(b, 2)).ok THEN g ELSE [g EXCEPT !.err = TRUE]
         [] t = tSST -> LET s == Table(<<b>> \o Conts(rs, k + 1)) IN IF s.ok THEN [g EXCEPT !.strs = s.out] ELSE [g EXCEPT !.err = TRUE]
         [] t = tBoundSheet -> LET s == Flat(b, 7, Byte(b, 6)) IN
                               IF s.ok THEN [g EXCEPT !.shs = Append(@, [n |-> s.s, p |-> U32(b, 0), h |-> Byte(b, 4) % 4])] ELSE [g EXCEPT !.err = TRUE]
         [] OTHER -> g
\* every part begins with a BOF of this version
BofOk(b) == b = <<>> \/ (Len(b) >= 16 /\ U16(b, 0) = 1536 /\ U16(b, 6) \in {1996, 1997})
=============================================================================
