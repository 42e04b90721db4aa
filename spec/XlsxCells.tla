---------------------------- MODULE XlsxCells ----------------------------
(* C14.  The worksheet and the shared strings of an XLSX package as streams of
   XML tokens.  The writer places cells of every type at chosen references in
   any order, divides character data at will, adds formulas, white space,
   formatting runs and phonetic annotations, and declares the used area truly,
   wrongly or not at all.  The sheet it denotes is a map from position to value.

   Reader is the state machine that consumes the tokens; TLC checks that from
   every document it recovers exactly the writer's map and string table.       *)
EXTENDS CellShow

CONSTANTS RowSet, ColSet, MaxCells, MaxStr, MaxRuns, Styles, DS, MaxDigits, Types, Hows, Atoms

VARIABLES strs,   \* shared entries: [runs, ph, how, rich]; a run is a sequence of atoms
          cells,  \* cells in document order
          cur, dim, phase
vars == <<strs, cells, cur, dim, phase>>

\* Atoms {u} and {e1}.. stand for characters outside of ASCII and for characters
\* that are written as an escape (_x0009_), or that look like one and are not.
\* atoms that are numerals
Digits == ("12" :> <<1, 2>>) @@ ("5" :> <<5>>) @@ ("0" :> <<0>>)
Errs == {"#N/A", "#DIV/0!", "#REF!"}

NoCur == [st |-> "none", t |-> "", r |-> 0, c |-> 0, s |-> 0, runs |-> <<>>, ph |-> <<>>, i |-> 0, neg |-> FALSE, ds |-> <<>>, pt |-> 0,
          f |-> FALSE, ws |-> FALSE, how |-> "", rich |-> FALSE]
Init == strs = <<>> /\ cells = <<>> /\ cur = NoCur /\ dim = "?" /\ phase = "strings"

(* ---- the writer ---- *)
Grow == /\ cur.st = "text"
        /\ \E a \in Atoms, new \in BOOLEAN :
             /\ (new => Len(cur.runs) < (IF cur.t = "str" THEN 1 ELSE MaxRuns))
             /\ (~new => (cur.runs # <<>> /\ (IF cur.runs # <<>> THEN Len(Last(cur.runs)) < 2 ELSE FALSE)))
             /\ cur' = [cur EXCEPT !.runs = IF new THEN Append(@, <<a>>) ELSE Append(Front(@), Append(Last(@), a))]
        /\ UNCHANGED <<strs, cells, dim, phase>>
TextEnd == /\ cur.st = "text"
           /\ \E rich \in BOOLEAN, p \in {<<>>, <<"5">>} :
                /\ (Len(cur.runs) # 1 => rich) /\ (cur.t = "str" => ~rich /\ p = <<>> /\ cur.runs # <<>>)
                /\ cur' = [cur EXCEPT !.rich = rich, !.ph = p, !.st = "layout"]
           /\ UNCHANGED <<strs, cells, dim, phase>>
StrStart == /\ phase = "strings" /\ cur.st = "none" /\ Len(strs) < MaxStr
            /\ cur' = [NoCur EXCEPT !.st = "text", !.t = "si"]
            /\ UNCHANGED <<strs, cells, dim, phase>>
StrEnd == /\ cur.st = "layout" /\ cur.t = "si"
          /\ \E h \in Hows, w \in BOOLEAN : strs' = Append(strs, [runs |-> cur.runs, ph |-> cur.ph, how |-> h, rich |-> cur.rich, ws |-> w])
          /\ cur' = NoCur /\ UNCHANGED <<cells, dim, phase>>
ToCells == /\ phase = "strings" /\ cur.st = "none" /\ phase' = "cells" /\ UNCHANGED <<strs, cells, cur, dim>>

Place == /\ phase = "cells" /\ cur.st = "none" /\ Len(cells) < MaxCells
         /\ \E t \in Types : cur' = [NoCur EXCEPT !.t = t, !.st = "at"]
         /\ (cur'.t = "s" => strs # <<>>)
         /\ UNCHANGED <<strs, cells, dim, phase>>
At == /\ cur.st = "at"
      /\ \E r \in RowSet, c \in ColSet :
           /\ \A j \in 1..Len(cells) : <<cells[j].r, cells[j].c>> # <<r, c>>
           /\ cur' = [cur EXCEPT !.r = r, !.c = c, !.st = "style"]
      /\ UNCHANGED <<strs, cells, dim, phase>>
Style == /\ cur.st = "style"
         /\ \E s \in Styles : cur' = [cur EXCEPT !.s = s,
              !.st = CASE cur.t = "n" -> "digits" [] cur.t \in {"inlineStr", "str"} -> "text"
                       [] cur.t \in {"s", "b", "e"} -> "pick" [] OTHER -> "layout"]
         /\ UNCHANGED <<strs, cells, dim, phase>>
Digit == /\ cur.st = "digits" /\ Len(cur.ds) < MaxDigits
         /\ \E d \in DS : cur' = [cur EXCEPT !.ds = Append(@, d)]
         /\ UNCHANGED <<strs, cells, dim, phase>>
NumEnd == /\ cur.st = "digits" /\ cur.ds # <<>>
          /\ \E n \in BOOLEAN, p \in 0..(IF Len(cur.ds) > 4 THEN 4 ELSE Len(cur.ds) - 1), e \in {0, 1, 2} :
               /\ (n => \E j \in 1..Len(cur.ds) : cur.ds[j] # 0)
               /\ cur' = [cur EXCEPT !.neg = n, !.pt = p, !.i = e, !.st = "layout"]
          /\ UNCHANGED <<strs, cells, dim, phase>>
Choose == /\ cur.st = "pick"
          /\ CASE cur.t = "s" -> \E j \in 1..Len(strs) : cur' = [cur EXCEPT !.i = j, !.st = "layout"]
               [] cur.t = "b" -> \E j \in {0, 1}, w \in BOOLEAN : cur' = [cur EXCEPT !.i = j, !.rich = w, !.st = "layout"]
               [] OTHER -> \E e \in Errs : cur' = [cur EXCEPT !.runs = <<<<e>>>>, !.st = "layout"]
          /\ UNCHANGED <<strs, cells, dim, phase>>
CellEnd == /\ cur.st = "layout" /\ cur.t # "si"
           /\ \E f \in BOOLEAN, w \in BOOLEAN, h \in Hows : cells' = Append(cells, [cur EXCEPT !.f = f /\ cur.t # "inlineStr", !.ws = w, !.how = h])
           /\ cur' = NoCur /\ UNCHANGED <<strs, dim, phase>>
Seal == /\ phase = "cells" /\ cur.st = "none"
        /\ dim' \in {"none", "exact", "A1", "small", "large"} /\ phase' = "built" /\ UNCHANGED <<strs, cells, cur>>

(* ---- the value a cell denotes ---- *)
TextOf(runs) == Cat([j \in 1..Len(runs) |-> Cat(runs[j])])
Flat(runs) == FoldLeft(LAMBDA a, r : a \o r, <<>>, runs)
TextVal(runs) ==
  LET as == Flat(runs)
      txt == TextOf(runs)
      ds == FoldLeft(LAMBDA a, x : a \o Digits[x], <<>>, as)
  IN IF txt = "" THEN Val("blank", "", NoNum)
     ELSE IF \A j \in 1..Len(as) : as[j] \in DOMAIN Digits THEN Val("text", txt, Num(FALSE, ds, <<>>))
     ELSE Val("word", txt, NoNum)
NumParts(c) == [ip |-> SubSeq(c.ds, 1, Len(c.ds) - c.pt), fp |-> SubSeq(c.ds, Len(c.ds) - c.pt + 1, Len(c.ds))]
NumOf(c) == LET n == Num(c.neg, NumParts(c).ip, NumParts(c).fp) IN IF ZeroV(n) THEN [n EXCEPT !.neg = FALSE] ELSE n
\* as written, in two atoms: plain, with an exponent, or as an integer with a negative exponent
NumAtoms(c) == LET sg == IF c.neg THEN "-" ELSE "" IN
  IF c.i = 2 THEN <<sg \o DigStr(c.ds), "E-" \o D(c.pt)>>
  ELSE <<sg \o DigStr(NumParts(c).ip), (IF c.pt = 0 THEN "" ELSE "." \o DigStr(NumParts(c).fp)) \o (IF c.i = 1 THEN "e0" ELSE "")>>
Value(c) == CASE c.t = "n" -> Val("float", "", NumOf(c))
              [] c.t = "b" -> Val("boolean", IF c.i = 1 THEN "TRUE" ELSE "FALSE", Num(FALSE, <<c.i>>, <<>>))
              [] c.t = "s" -> TextVal(strs[c.i].runs)
              [] c.t \in {"str", "inlineStr"} -> TextVal(c.runs)
              [] c.t = "e" -> Val("word", c.runs[1][1], NoNum)
              [] OTHER -> Val("blank", "", NoNum)

(* ---- the tokens ---- *)
T(k, n, x) == [k |-> k, n |-> n, x |-> x, r |-> 0, c |-> 0, s |-> 0, h |-> ""]
S(n) == T("start", n, "")
E(n) == T("end", n, "")
W(w) == IF w THEN <<T("chars", "", "{ws}")>> ELSE <<>>
Elt(n, ts) == <<S(n)>> \o ts \o <<E(n)>>
\* a text of several atoms, divided in one way or another
Chars(as, how) ==
  IF how = "joined" THEN (IF Cat(as) = "" THEN <<>> ELSE <<T("chars", "", Cat(as))>>)
  ELSE IF how = "comment" THEN FoldLeft(LAMBDA a, x : a \o <<T("chars", "", x), T("comment", "", "!")>>, <<>>, as)
  ELSE [j \in 1..Len(as) |-> [T("chars", "", as[j]) EXCEPT !.h = IF how = "mixed" THEN (IF j % 2 = 1 THEN "cdata" ELSE "") ELSE how]]
RunsTok(t, how, w) ==
  (IF ~t.rich THEN Elt("t", Chars(t.runs[1], how))
   ELSE FoldLeft(LAMBDA a, r : a \o W(w) \o Elt("r", W(w) \o Elt("rPr", <<S("b"), E("b")>>) \o W(w) \o Elt("t", Chars(r, how)) \o W(w)), <<>>, t.runs))
  \o (IF t.ph = <<>> THEN <<>> ELSE W(w) \o Elt("rPh", Elt("t", Chars(t.ph, how))) \o Elt("phoneticPr", <<>>)) \o W(w)
Formula(c) == IF c.f THEN Elt("f", Chars(<<"SUM(12,", "A1)&\"<\"">>, c.how)) \o W(c.ws) ELSE <<>>
Body(c) == CASE c.t = "inlineStr" -> Elt("is", W(c.ws) \o RunsTok(c, c.how, c.ws))
             [] c.t = "none" -> <<>>
             [] c.t = "empty" -> Elt("v", <<>>)
             [] OTHER -> Elt("v", Chars(CASE c.t = "n" -> NumAtoms(c)
                                          [] c.t = "b" -> <<IF c.rich THEN (IF c.i = 1 THEN "true" ELSE "false") ELSE D(c.i)>>
                                          [] c.t = "s" -> <<D(c.i - 1)>>
                                          [] OTHER -> Flat(c.runs), c.how))
CellTok(c) == <<[S("c") EXCEPT !.x = IF c.t \in {"none", "empty"} THEN "" ELSE c.t, !.r = c.r, !.c = c.c, !.s = c.s]>>
              \o W(c.ws) \o Formula(c) \o Body(c) \o W(c.ws) \o <<E("c")>>
SheetTok == FoldLeft(LAMBDA a, c : a \o CellTok(c) \o W(c.ws), <<>>, cells)
StrTok == FoldLeft(LAMBDA a, t : a \o Elt("si", W(t.ws) \o RunsTok(t, t.how, t.ws)) \o W(t.ws), <<>>, strs)

(* ---- the reader ---- *)
R0 == [in |-> FALSE, ph |-> FALSE, acc |-> "", at |-> <<>>, t |-> "", table |-> <<>>, map |-> <<>>]
Read1(q, k) ==
  CASE k.k = "chars" /\ q.in /\ ~q.ph -> [q EXCEPT !.acc = @ \o k.x]
    [] k.k = "start" /\ k.n \in {"t", "v"} -> [q EXCEPT !.in = TRUE]
    [] k.k = "end" /\ k.n \in {"t", "v"} -> [q EXCEPT !.in = FALSE]
    [] k.k = "start" /\ k.n = "rPh" -> [q EXCEPT !.ph = TRUE]
    [] k.k = "end" /\ k.n = "rPh" -> [q EXCEPT !.ph = FALSE]
    [] k.k = "start" /\ k.n = "si" -> [q EXCEPT !.acc = ""]
    [] k.k = "end" /\ k.n = "si" -> [q EXCEPT !.table = Append(@, q.acc)]
    [] k.k = "start" /\ k.n = "c" -> [q EXCEPT !.acc = "", !.at = <<k.r, k.c>>, !.t = k.x]
    [] k.k = "end" /\ k.n = "c" -> IF q.acc = "" THEN q ELSE [q EXCEPT !.map = (q.at :> <<q.t, q.acc>>) @@ @]
    [] OTHER -> q
Reader(ts) == FoldLeft(Read1, R0, ts)
\* what the writer meant each cell's text to be
Meant(c) == CASE c.t = "n" -> Cat(NumAtoms(c)) [] c.t = "b" -> (IF c.rich THEN (IF c.i = 1 THEN "true" ELSE "false") ELSE D(c.i))
              [] c.t = "s" -> D(c.i - 1) [] c.t \in {"str", "inlineStr", "e"} -> TextOf(c.runs) [] OTHER -> ""
Recovers == phase = "built" =>
  /\ Reader(StrTok).table = [j \in 1..Len(strs) |-> TextOf(strs[j].runs)]
  /\ LET m == Reader(SheetTok).map IN
     /\ \A j \in 1..Len(cells) : LET p == <<cells[j].r, cells[j].c>> IN
          IF Meant(cells[j]) = "" THEN p \notin DOMAIN m ELSE p \in DOMAIN m /\ m[p] = <<cells[j].t, Meant(cells[j])>>
     /\ \A p \in DOMAIN m : \E j \in 1..Len(cells) : p = <<cells[j].r, cells[j].c>>

Obs(c) == LET x == Value(c)
              o == Shows([x |-> x, f |-> FmtOf(c.s), forced |-> FALSE])
          IN [r |-> c.r, c |-> c.c, t |-> IF x.kind = "blank" THEN "blank" ELSE o.t, v |-> IF x.kind = "blank" THEN "" ELSE o.v,
              f |-> FmtOf(c.s), code |-> IF FmtOf(c.s) = 164 THEN "*" ELSE BuiltIn[FmtOf(c.s)].code]
Emit == /\ phase = "built" /\ phase' = "emitted"
        /\ PrintT(ToJson([sheet |-> SheetTok, strings |-> StrTok, dim |-> dim, cells |-> [j \in 1..Len(cells) |-> Obs(cells[j])]]))
        /\ UNCHANGED <<strs, cells, cur, dim>>
Next == Grow \/ TextEnd \/ StrStart \/ StrEnd \/ ToCells \/ Place \/ At \/ Style \/ Digit \/ NumEnd \/ Choose \/ CellEnd \/ Seal \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
