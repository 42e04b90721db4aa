------------------------------ MODULE DamageX ------------------------------
(* C25, .xlsx.  A package with every element the library reads, damaged: values
   changed or missing, elements lost, doubled, renamed, exchanged or opened up,
   parts that end too early, are not well-formed, do not match their checksum
   or are missing.  Then it is read as Xml says: a refusal of the whole, or for
   every sheet on its own a refusal or what it says.                          *)
EXTENDS Xml, Json

CONSTANTS MaxFaults, Ops, Names, Sorts

VARIABLES parts, gone, flip, torn, short, nf, aim, local, phase, d, open, sheets
vars == <<parts, gone, flip, torn, short, nf, aim, local, phase, d, open, sheets>>

Root == 1   WbRels == 2   Wb == 3   Sty == 4   Sst == 5   ShA == 6   ShARels == 7   ShB == 8
Path == <<"_rels/.rels", "xl/_rels/workbook.xml.rels", "xl/workbook.xml", "xl/styles.xml", "xl/sharedStrings.xml",
          "xl/worksheets/sheet1.xml", "xl/worksheets/_rels/sheet1.xml.rels", "xl/worksheets/sheet2.xml">>
Rel(id, ty, to, x) == <<St("Relationship", <<AS("Id", id), AS("Type", ty), AS("Target", to)>> \o (IF x THEN <<AS("TargetMode", "External")>> ELSE <<>>)), En("Relationship")>>
El(n, a, inner) == <<St(n, a)>> \o inner \o <<En(n)>>
Cell(r, t, s, inner) == El("c", <<AC("r", r)>> \o (IF s # <<>> THEN <<AC("s", s)>> ELSE <<>>) \o (IF t # "" THEN <<AS("t", t)>> ELSE <<>>), inner)
V(c) == El("v", <<>>, <<Tx(c)>>)
Row(n, inner) == El("row", <<AC("r", n)>>, inner)
Original == <<
  El("Relationships", <<>>, Rel("rId2", "core", "docProps/core.xml", FALSE) \o Rel("rId1", "officeDocument", "xl/workbook.xml", FALSE)),
  El("Relationships", <<>>, Rel("rId1", "worksheet", "worksheets/sheet1.xml", FALSE) \o Rel("rId2", "worksheet", "worksheets/sheet2.xml", FALSE)
       \o Rel("rId3", "styles", "styles.xml", FALSE) \o Rel("rId4", "sharedStrings", "sharedStrings.xml", FALSE)),
  El("workbook", <<>>, El("workbookPr", <<AC("date1904", <<48>>)>>, <<>>)
       \o El("sheets", <<>>, El("sheet", <<AS("name", "A"), AC("sheetId", <<49>>), AS("id", "rId1")>>, <<>>)
                           \o El("sheet", <<AS("name", "B"), AC("sheetId", <<50>>), AS("id", "rId2")>>, <<>>))),
  El("styleSheet", <<>>, El("numFmts", <<AC("count", <<49>>)>>, El("numFmt", <<AC("numFmtId", <<49, 54, 52>>), AS("formatCode", "0.000")>>, <<>>))
       \o El("cellStyleXfs", <<AC("count", <<49>>)>>, El("xf", <<AC("numFmtId", <<48>>)>>, <<>>))
       \o El("cellXfs", <<AC("count", <<51>>)>>,
             El("xf", <<AC("numFmtId", <<48>>), AC("xfId", <<48>>)>>, <<>>)
             \o El("xf", <<AC("numFmtId", <<50>>), AC("xfId", <<48>>), AC("applyNumberFormat", <<49>>)>>, <<>>)
             \o El("xf", <<AC("numFmtId", <<49, 54, 52>>), AC("xfId", <<48>>)>>, <<>>))
       \o El("dxfs", <<>>, El("dxf", <<>>, El("numFmt", <<AC("numFmtId", <<49, 54, 53>>), AS("formatCode", "0.0")>>, <<>>)))),
  El("sst", <<AC("count", <<51>>), AC("uniqueCount", <<51>>)>>,
       El("si", <<>>, El("t", <<>>, <<Tx(<<97, 98>>)>>))
       \o El("si", <<>>, El("r", <<>>, El("t", <<>>, <<Tx(<<99>>)>>)) \o El("r", <<>>, El("t", <<>>, <<Tx(<<100>>)>>)) \o El("rPh", <<>>, El("t", <<>>, <<Tx(<<120>>)>>)))
       \o El("si", <<>>, El("t", <<>>, <<>>))),
  El("worksheet", <<>>, El("dimension", <<AC("ref", <<65, 49, 58, 68, 54>>)>>, <<>>)
       \o El("sheetData", <<>>,
           Row(<<49>>, Cell(<<65, 49>>, "s", <<>>, V(<<48>>)) \o Cell(<<66, 49>>, "", <<49>>, V(<<49, 53>>)) \o Cell(<<67, 49>>, "b", <<>>, V(<<49>>)) \o Cell(<<68, 49>>, "e", <<>>, V(<<35, 78, 47, 65>>)))
           \o Row(<<50>>, Cell(<<65, 50>>, "str", <<>>, El("f", <<>>, <<Tx(<<66, 49>>)>>) \o V(<<120, 121>>)) \o Cell(<<66, 50>>, "inlineStr", <<>>, El("is", <<>>, El("t", <<>>, <<Tx(<<105, 110>>)>>)))
                      \o Cell(<<67, 50>>, "", <<50>>, V(<<45, 50>>)) \o Cell(<<68, 50>>, "n", <<>>, V(<<51, 46, 53>>)))
           \o Row(<<51>>, Cell(<<65, 51>>, "s", <<48>>, V(<<49>>)) \o Cell(<<66, 51>>, "", <<50>>, <<>>) \o Cell(<<67, 51>>, "s", <<>>, V(<<50>>))))
       \o El("mergeCells", <<AC("count", <<50>>)>>, El("mergeCell", <<AC("ref", <<65, 52, 58, 66, 53>>)>>, <<>>) \o El("mergeCell", <<AC("ref", <<67, 51, 58, 68, 51>>)>>, <<>>))
       \o El("hyperlinks", <<>>, El("hyperlink", <<AC("ref", <<65, 54>>), AS("id", "rId1")>>, <<>>) \o El("hyperlink", <<AC("ref", <<66, 50>>), AS("location", "B!A1")>>, <<>>))),
  El("Relationships", <<>>, Rel("rId1", "hyperlink", "http://x/", TRUE)),
  El("worksheet", <<>>, El("sheetData", <<>>, Row(<<49>>, Cell(<<65, 49>>, "s", <<>>, V(<<49>>)) \o Cell(<<66, 49>>, "", <<49>>, V(<<55>>))))) >>
N == Len(Original)

Clean == [rels |-> <<>>, book |-> [shs |-> <<>>, err |-> FALSE], xfs |-> <<>>, strs |-> <<>>, at |-> 0]
Init == /\ parts = Original /\ gone = {} /\ flip = {} /\ torn = 0 /\ short = FALSE /\ nf = 0 /\ aim = <<>> /\ local = TRUE
        /\ phase = "damage" /\ d = Clean /\ open = "" /\ sheets = <<>>

Readable(p) == p # 0 /\ p \notin gone /\ p \notin flip /\ p # torn /\ Formed(parts[p], 1, <<>>)

\* ---- damage, chosen in three steps ----
Aimed == /\ phase = "damage" /\ nf < MaxFaults
         /\ CASE Len(aim) = 0 -> \E p \in 1..N : Readable(p) /\ aim' = <<p>>
              [] Len(aim) = 1 -> \E o \in Ops : aim' = <<aim[1], o>>
              [] Len(aim) = 2 ->
                   LET ev == parts[aim[1]]
                       o == aim[2] IN
                   IF o \in {"gone", "flip"} THEN aim' = Append(aim, 1)
                   ELSE \E i \in 1..Len(ev) :
                     /\ CASE o \in {"attr", "noattr"} -> ev[i].k = "start" /\ ev[i].a # <<>>
                          [] o = "text" -> ev[i].k = "text"
                          [] o \in {"drop", "double", "unwrap", "rename", "swap"} -> i > 1 /\ ev[i].k = "start"
                          [] o = "lostend" -> ev[i].k = "end"
                          [] OTHER -> TRUE
                     /\ IF o = "swap" THEN ev[EndOf(ev, i, 0) + 1].k = "start" ELSE TRUE
                     /\ aim' = Append(aim, i)
              [] OTHER -> FALSE
         /\ UNCHANGED <<parts, gone, flip, torn, short, nf, local, phase, d, open, sheets>>

\* values that could stand there instead
Sib(ev, n) == UNION {{ev[i].a[j].s : j \in {j \in 1..Len(ev[i].a) : ev[i].a[j].n = n}} : i \in 1..Len(ev)}
Junk == { <<>>, <<97, 98, 99>>, <<45, 49>>, <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>, <<54, 53, 53, 51, 54>>, <<49, 46, 53>>,
          <<58>>, <<58, 66, 50>>, <<66, 50, 58>>, <<65, 48>>, <<65, 65, 65, 49>>, <<88, 70, 68, 49>>, <<88, 70, 69, 49>>, <<65, 49, 48, 52, 56, 53, 55, 54>>, <<65, 49, 48, 52, 56, 53, 55, 55>>,
          <<82, 49, 67, 49>>, <<82, 50, 67, 51>>, <<82, 48, 67, 49>>, <<82, 49, 67>>, <<65, 65, 49, 67, 49>>, <<90, 90, 90, 90, 90, 90, 90, 90, 57>>, <<97, 49>>, <<36, 65, 36, 49>>, <<32, 49>>, <<66, 50, 58, 65, 49>> }
Near(c) == {SubSeq(c, 1, i - 1) \o SubSeq(c, i + 1, Len(c)) : i \in 1..Len(c)}
           \cup {[c EXCEPT ![i] = @ + 1] : i \in 1..Len(c)} \cup {[c EXCEPT ![i] = @ - 1] : i \in 1..Len(c)} \cup {SubSeq(c, 1, i) \o SubSeq(c, i, Len(c)) : i \in 1..Len(c)}
\* (no signs and exponents)
Plain(c) == \A i \in 1..Len(c) : c[i] \in {32, 36, 45, 46, 58} \cup (48..57) \cup (65..90) \cup {97, 98, 99, 120, 121, 105, 110}
Swap(ev, i) == LET e1 == EndOf(ev, i, 0)
                   e2 == EndOf(ev, e1 + 1, 0)
               IN SubSeq(ev, 1, i - 1) \o SubSeq(ev, e1 + 1, e2) \o SubSeq(ev, i, e1) \o SubSeq(ev, e2 + 1, Len(ev))
Harm == /\ phase = "damage" /\ Len(aim) = 3
        /\ LET p == aim[1]
               o == aim[2]
               i == aim[3]
               ev == parts[p]
               e == ev[i]
               hit(new) == parts' = [parts EXCEPT ![p] = new] /\ UNCHANGED <<gone, flip, torn>>
               atr(j, new) == hit([ev EXCEPT ![i].a[j] = new]) IN
           CASE o = "gone" -> gone' = gone \cup {p} /\ UNCHANGED <<parts, flip, torn>>
             [] o = "flip" -> flip' = flip \cup {p} /\ UNCHANGED <<parts, gone, torn>>
             [] o = "torn" -> torn = 0 /\ torn' = p /\ parts' = [parts EXCEPT ![p] = SubSeq(ev, 1, i)] /\ UNCHANGED <<gone, flip>>
             [] o = "cut" -> i < Len(ev) /\ hit(SubSeq(ev, 1, i))
             [] o = "noattr" -> \E j \in 1..Len(e.a) : hit([ev EXCEPT ![i].a = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@))])
             [] o = "attr" -> \E j \in 1..Len(e.a) :
                  IF e.a[j].c = <<>>
                  THEN \E s \in (Sib(ev, e.a[j].n) \cup {"", "zzz"} \cup (IF e.a[j].n = "t" THEN Sorts ELSE {})) \ {e.a[j].s} : atr(j, [e.a[j] EXCEPT !.s = s])
                  ELSE \E c \in (Junk \cup Near(e.a[j].c)) \ {e.a[j].c} : Plain(c) /\ atr(j, [e.a[j] EXCEPT !.c = c])
             [] o = "text" -> \E c \in {<<>>, <<97, 98, 99>>, <<45, 49>>, <<50>>, <<51>>, <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>, <<32, 49, 10>>} \cup Near(e.t) :
                                 c # e.t /\ (Plain(c) \/ c = <<32, 49, 10>>) /\ hit([ev EXCEPT ![i].t = c])
             [] o = "drop" -> hit(SubSeq(ev, 1, i - 1) \o SubSeq(ev, EndOf(ev, i, 0) + 1, Len(ev)))
             [] o = "double" -> hit(SubSeq(ev, 1, EndOf(ev, i, 0)) \o SubSeq(ev, i, Len(ev)))
             [] o = "unwrap" -> LET z == EndOf(ev, i, 0) IN hit(SubSeq(ev, 1, i - 1) \o SubSeq(ev, i + 1, z - 1) \o SubSeq(ev, z + 1, Len(ev)))
             [] o = "rename" -> \E n \in Names \ {e.n} : hit([ev EXCEPT ![i].n = n, ![EndOf(ev, i, 0)].n = n])
             [] o = "swap" -> hit(Swap(ev, i))
             [] o = "lostend" -> hit(SubSeq(ev, 1, i - 1) \o SubSeq(ev, i + 1, Len(ev)))
        /\ nf' = nf + 1 /\ aim' = <<>> /\ local' = (local /\ aim[1] \in {ShA, ShARels})
        /\ UNCHANGED <<short, phase, d, open, sheets>>

\* the end of the archive itself is missing
Shorten == /\ phase = "damage" /\ aim = <<>> /\ nf < MaxFaults /\ ~short
           /\ short' = TRUE /\ nf' = nf + 1 /\ local' = FALSE /\ UNCHANGED <<parts, gone, flip, torn, aim, phase, d, open, sheets>>
Miss == phase = "damage" /\ aim # <<>> /\ aim' = <<>> /\ nf' = nf + 1 /\ UNCHANGED <<parts, gone, flip, torn, short, local, phase, d, open, sheets>>

\* ---- reading, one part at a time ----
Begin == phase = "damage" /\ aim = <<>> /\ phase' = "open" /\ UNCHANGED <<parts, gone, flip, torn, short, nf, aim, local, d, open, sheets>>
\* the part that a target written in part p names
Named(dir, to) == LET full == IF dir = "" THEN to ELSE dir \o "/" \o to
                      at == {i \in 1..N : Path[i] = full}
                  IN IF at = {} THEN 0 ELSE CHOOSE i \in at : TRUE
Primary(rels) == LET at == {i \in 1..Len(rels) : rels[i].type = "officeDocument"} IN
                 IF at = {} THEN "" ELSE rels[CHOOSE i \in at : \A j \in at : j <= i].to
Aux(ty) == {i \in 1..Len(d.rels) : d.rels[i].type = ty}
Refuse == phase' = "done" /\ open' = "err" /\ UNCHANGED d
Go(x) == d' = [x EXCEPT !.at = @ + 1] /\ UNCHANGED <<phase, open>>
OpenStep ==
  /\ phase = "open"
  /\ CASE d.at = 0 -> IF short \/ ~Readable(Root) THEN Refuse ELSE Go([d EXCEPT !.rels = Rels(parts[Root], 1, <<>>)])
       [] d.at = 1 -> IF Named("", Primary(d.rels)) # Wb \/ ~Readable(WbRels) THEN Refuse
                      ELSE LET rs == Rels(parts[WbRels], 1, <<>>) IN
                           IF Primary(rs) # "" THEN phase' = "done" /\ open' = "any" /\ UNCHANGED d ELSE Go([d EXCEPT !.rels = @ \o rs])
       [] d.at = 2 -> IF ~Readable(Wb) THEN Refuse
                      ELSE LET b == Book(parts[Wb], 1, d.book) IN IF b.err THEN Refuse ELSE Go([d EXCEPT !.book = b])
       [] d.at = 3 -> IF Aux("styles") = {} THEN Go(d)
                      ELSE IF Cardinality(Aux("styles")) > 1 \/ Cardinality(Aux("sharedStrings")) > 1 THEN phase' = "done" /\ open' = "any" /\ UNCHANGED d
                      ELSE LET p == Named("xl", d.rels[CHOOSE i \in Aux("styles") : TRUE].to) IN
                           IF ~Readable(p) THEN Refuse ELSE Go([d EXCEPT !.xfs = Styles(parts[p], 1, [sec |-> 0, xfs |-> <<>>]).xfs])
       [] d.at = 4 -> IF Aux("sharedStrings") = {} THEN Go(d)
                      ELSE IF Cardinality(Aux("sharedStrings")) > 1 THEN phase' = "done" /\ open' = "any" /\ UNCHANGED d
                      ELSE LET p == Named("xl", d.rels[CHOOSE i \in Aux("sharedStrings") : TRUE].to) IN
                           IF ~Readable(p) THEN Refuse ELSE Go([d EXCEPT !.strs = Shared(parts[p], 1, [val |-> <<>>, t |-> FALSE, ph |-> FALSE, out |-> <<>>])])
       [] OTHER -> phase' = "sheets" /\ open' = "ok" /\ UNCHANGED d
  /\ UNCHANGED <<parts, gone, flip, torn, short, nf, aim, local, sheets>>
Refused == [err |-> TRUE, eff |-> <<>>]
Content(x, p, rp) ==
  IF ~Readable(p) \/ (rp # 0 /\ rp \notin gone /\ ~Readable(rp)) THEN Refused
  ELSE LET links == IF rp = 0 \/ rp \in gone THEN <<>> ELSE Rels(parts[rp], 1, <<>>)
           s == Sheet(parts[p], 1, NoSheet, x.xfs, x.strs, links)
       IN IF s.err THEN Refused ELSE [err |-> FALSE, eff |-> s.eff]
Had(n) == LET to == Lookup(d.rels, "worksheet", n.id)
              p == IF to = "" THEN 0 ELSE Named("xl", to)
              rp == IF p = ShA THEN ShARels ELSE 0
          IN IF p = 0 THEN Refused ELSE Content(d, p, rp)
GetAll == /\ phase = "sheets"
          /\ IF Len(sheets) = Len(d.book.shs) THEN phase' = "done" /\ UNCHANGED sheets
             ELSE LET n == d.book.shs[Len(sheets) + 1].name
                      first == CHOOSE i \in 1..Len(d.book.shs) : d.book.shs[i].name = n /\ \A j \in 1..i - 1 : d.book.shs[j].name # n
                  IN sheets' = Append(sheets, [n |-> n, got |-> Had(d.book.shs[first])]) /\ UNCHANGED phase
          /\ UNCHANGED <<parts, gone, flip, torn, short, nf, aim, local, d, open>>
Emit == /\ phase = "done" /\ phase' = "emitted"
        /\ PrintT(ToJson([parts |-> parts, gone |-> gone, flip |-> flip, torn |-> torn, short |-> short, open |-> open, sheets |-> IF open = "ok" THEN sheets ELSE <<>>]))
        /\ UNCHANGED <<parts, gone, flip, torn, short, nf, aim, local, d, open, sheets>>
\* (with this the reader never sticks: any other state has a successor)
Rested == phase = "emitted" /\ UNCHANGED vars
Next == Rested \/ Aimed \/ Harm \/ Shorten \/ Miss \/ Begin \/ OpenStep \/ GetAll \/ Emit
Spec == Init /\ [][Next]_vars

\* ---- what must hold ----
Whole == [rels |-> Rels(Original[Root], 1, <<>>) \o Rels(Original[WbRels], 1, <<>>),
          book |-> Book(Original[Wb], 1, Clean.book),
          xfs |-> Styles(Original[Sty], 1, [sec |-> 0, xfs |-> <<>>]).xfs,
          strs |-> Shared(Original[Sst], 1, [val |-> <<>>, t |-> FALSE, ph |-> FALSE, out |-> <<>>]), at |-> 0]
SheetOf(p, links) == Sheet(Original[p], 1, NoSheet, Whole.xfs, Whole.strs, links).eff
\* damage inside a sheet is that sheet's
Contained == phase = "done" /\ local => /\ open = "ok" /\ Len(sheets) = 2
                                        /\ sheets[2].got = [err |-> FALSE, eff |-> SheetOf(ShB, <<>>)]
                                        /\ (nf = 0 => sheets[1].got = [err |-> FALSE, eff |-> SheetOf(ShA, Rels(Original[ShARels], 1, <<>>))])
\* a value changed in one cell leaves all others
OneCell == phase = "done" /\ local /\ nf = 1 /\ Len(sheets) = 2 =>
             (~sheets[1].got.err =>
                LET was == SheetOf(ShA, Rels(Original[ShARels], 1, <<>>))
                    now == sheets[1].got.eff
                    kept(e) == \E i \in 1..Len(now) : now[i] = e
                    same == \A p \in 1..Len(parts[ShA]) : p <= Len(Original[ShA]) => parts[ShA][p].n = Original[ShA][p].n
                IN same /\ Len(parts[ShA]) = Len(Original[ShA]) => Cardinality({i \in 1..Len(was) : ~kept(was[i])}) <= 1 \/ parts[ShA][2] # Original[ShA][2])
=============================================================================
