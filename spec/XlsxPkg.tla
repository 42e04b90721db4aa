---------------------------- MODULE XlsxPkg ----------------------------
(* C15.  An XLSX package: parts at paths, relationships that name them, a
   workbook that lists sheets by relationship, and a table of cell styles.

   The writer chooses where the workbook and every other part lie, the
   identifiers, the order of the relationships and how every target is spelled
   (relative, relative through the root, with a redundant step, absolute).
   Reader is the lookup the library must implement: sheet name, then
   relationship, then target resolved against the workbook's folder, then part.
   TLC checks that it always arrives at the part the writer meant (Arrives),
   and that every spelling resolves to the part it spells (Resolves).

   Styles: a cell's format is the one of its cell style unless that switches
   it off; the base styles have no say.  Dates follow the workbook's setting.  *)
EXTENDS Calendar, Json

CONSTANTS Books, SheetNames, SheetPaths, AuxPaths, RelIds, AuxIds, AnyOrder, MaxSheets, MaxOrphans, Spells,
          Customs, Fmts, MaxXf, MaxBase, Applies, Modes, Dates

VARIABLES wb,      \* path of the workbook part
          root,    \* the package relationship's target
          sheets,  \* workbook order: [name, id, path]; name "" = not listed
          aux,     \* [strings, styles]: [id, path]
          todo,    \* relationships still to be written
          rels,    \* as written: [id, type, to]
          base, xfs, numfmts, mode, date, phase
vars == <<wb, root, sheets, aux, todo, rels, base, xfs, numfmts, mode, date, phase>>

(* ---- paths and targets ---- *)
Dir(p) == Front(p)
Join(p) == Cat([k \in 1..Len(p) |-> IF k = 1 THEN p[k] ELSE "/" \o p[k]])
Common(a, b) == LET n == {k \in 0..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) : SubSeq(a, 1, k) = SubSeq(b, 1, k)}
                IN CHOOSE k \in n : \A j \in n : j <= k
Ups(n) == [k \in 1..n |-> ".."]
Spell(how, dir, p) ==
  LET c == Common(dir, Dir(p))
      near == Ups(Len(dir) - c) \o SubSeq(p, c + 1, Len(p))
  IN CASE how = "abs" -> [abs |-> TRUE, segs |-> p]
       [] how = "far" -> [abs |-> FALSE, segs |-> Ups(Len(dir)) \o p]
       [] how = "dot" -> [abs |-> FALSE, segs |-> <<".">> \o near]
       [] how = "loop" -> [abs |-> FALSE, segs |-> <<"x", "..">> \o near]
       [] OTHER -> [abs |-> FALSE, segs |-> near]
Resolve(dir, t) == FoldLeft(LAMBDA a, s : IF s = "." THEN a ELSE IF s = ".." THEN (IF a = <<>> THEN a ELSE Front(a)) ELSE Append(a, s),
                            IF t.abs THEN <<>> ELSE dir, t.segs)
Text(t) == (IF t.abs THEN "/" ELSE "") \o Join(t.segs)
Resolves == \A d \in {Dir(b) : b \in Books}, p \in SheetPaths \cup AuxPaths, h \in Spells : Resolve(d, Spell(h, d, p)) = p

(* ---- the writer ---- *)
NoAux == [id |-> "", path |-> <<>>]
NoTo == [abs |-> FALSE, segs |-> <<>>]
Init == /\ wb = <<>> /\ root = NoTo /\ sheets = <<>> /\ aux = [strings |-> NoAux, styles |-> NoAux]
        /\ todo = {} /\ rels = <<>> /\ base = <<>> /\ xfs = <<>> /\ numfmts = <<>> /\ mode = "none" /\ date \in Dates /\ phase = "wb"
UsedIds == {sheets[k].id : k \in 1..Len(sheets)} \cup {aux.strings.id, aux.styles.id}
UsedPaths == {wb} \cup {sheets[k].path : k \in 1..Len(sheets)} \cup {aux.strings.path, aux.styles.path}

PickBook == /\ phase = "wb"
            /\ \E b \in Books, h \in {"abs", "near"}, m \in Modes : wb' = b /\ root' = Spell(h, <<>>, b) /\ mode' = m
            /\ phase' = "sheets" /\ UNCHANGED <<sheets, aux, todo, rels, base, xfs, numfmts, date>>
Listed == Cardinality({k \in 1..Len(sheets) : sheets[k].name # ""})
AddSheet == /\ phase = "sheets"
            /\ \E n \in SheetNames \cup {""}, i \in RelIds, p \in SheetPaths :
                 /\ IF n = "" THEN Len(sheets) - Listed < MaxOrphans ELSE Listed < MaxSheets
                 /\ n # "" => \A k \in 1..Len(sheets) : sheets[k].name # n
                 /\ i \notin UsedIds /\ p \notin UsedPaths
                 /\ sheets' = Append(sheets, [name |-> n, id |-> i, path |-> p])
            /\ UNCHANGED <<wb, root, aux, todo, rels, base, xfs, numfmts, mode, date, phase>>
ToAux == /\ phase = "sheets" /\ Listed > 0 /\ phase' = "strings"
         /\ UNCHANGED <<wb, root, sheets, aux, todo, rels, base, xfs, numfmts, mode, date>>
AddAux(a, nx) == /\ phase = a
                 /\ \E i \in AuxIds, p \in AuxPaths :
                      i \notin UsedIds /\ p \notin UsedPaths /\ aux' = [aux EXCEPT ![a] = [id |-> i, path |-> p]]
                 /\ phase' = nx /\ todo' = IF nx = "rels" THEN (1..Len(sheets)) \cup {0, 0 - 1} ELSE {}
                 /\ UNCHANGED <<wb, root, sheets, rels, base, xfs, numfmts, mode, date>>
\* one relationship after the other, in any order, spelled in any way
Rel == /\ phase = "rels" /\ todo # {}
       /\ \E k \in todo, h \in Spells :
            /\ (AnyOrder \/ \A j \in todo : j <= k)
            /\ LET what == IF k = 0 THEN [type |-> "sharedStrings", id |-> aux.strings.id, path |-> aux.strings.path]
                        ELSE IF k < 0 THEN [type |-> "styles", id |-> aux.styles.id, path |-> aux.styles.path]
                        ELSE [type |-> "worksheet", id |-> sheets[k].id, path |-> sheets[k].path]
               IN rels' = Append(rels, [id |-> what.id, type |-> what.type, to |-> Spell(h, Dir(wb), what.path)]) /\ todo' = todo \ {k}
       /\ UNCHANGED <<wb, root, sheets, aux, base, xfs, numfmts, mode, date, phase>>
ToStyles == /\ phase = "rels" /\ todo = {} /\ phase' = "numfmts" /\ UNCHANGED <<wb, root, sheets, aux, todo, rels, base, xfs, numfmts, mode, date>>

\* custom definitions: code, rendering, type
Defs == [ gen |-> [code |-> "General", r |-> K("general", 0), type |-> "any"],
          d4  |-> [code |-> "0.0000", r |-> [N0 EXCEPT !.dec = 4], type |-> "float"],
          d3  |-> [code |-> "0.000", r |-> [N0 EXCEPT !.dec = 3], type |-> "float"],
          i   |-> [code |-> "0", r |-> N0, type |-> "integer"],
          p1  |-> [code |-> "0.0%", r |-> [Pct0 EXCEPT !.dec = 1], type |-> "float"] ]
AddFmt == /\ phase = "numfmts" /\ Len(numfmts) < Cardinality(Customs)
          /\ \E id \in Customs, d \in DOMAIN Defs :
               /\ \A k \in 1..Len(numfmts) : numfmts[k].id # id
               /\ IF id \in Ids THEN d # "gen" ELSE TRUE  \* (which a definition does not change)
               /\ numfmts' = Append(numfmts, [id |-> id, def |-> d])
          /\ UNCHANGED <<wb, root, sheets, aux, todo, rels, base, xfs, mode, date, phase>>
ToXfs == /\ phase = "numfmts" /\ phase' = "base" /\ UNCHANGED <<wb, root, sheets, aux, todo, rels, base, xfs, numfmts, mode, date>>
FmtIds == Fmts \cup {numfmts[k].id : k \in 1..Len(numfmts)}
AddBase == /\ phase = "base" /\ Len(base) < MaxBase
           /\ \E f \in FmtIds, a \in Applies : base' = Append(base, [f |-> f, a |-> a])
           /\ UNCHANGED <<wb, root, sheets, aux, todo, rels, xfs, numfmts, mode, date, phase>>
ToCellXfs == /\ phase = "base" /\ phase' = "xfs" /\ UNCHANGED <<wb, root, sheets, aux, todo, rels, base, xfs, numfmts, mode, date>>
AddXf == /\ phase = "xfs" /\ Len(xfs) < MaxXf
         /\ \E f \in FmtIds, a \in Applies, b \in 0..Len(base) :
              /\ xfs' = Append(xfs, [f |-> f, a |-> a, b |-> b])
         /\ UNCHANGED <<wb, root, sheets, aux, todo, rels, base, numfmts, mode, date, phase>>
Done == /\ phase = "xfs" /\ phase' = "built" /\ UNCHANGED <<wb, root, sheets, aux, todo, rels, base, xfs, numfmts, mode, date>>

(* ---- the reader ---- *)
Arrive(n) == LET s == CHOOSE k \in 1..Len(sheets) : sheets[k].name = n
                 r == CHOOSE k \in 1..Len(rels) : rels[k].id = sheets[s].id /\ rels[k].type = "worksheet"
                 at == Resolve(Dir(Resolve(<<>>, root)), rels[r].to)
             IN CHOOSE k \in 1..Len(sheets) : sheets[k].path = at
Arrives == phase = "built" => \A k \in 1..Len(sheets) : sheets[k].name # "" => Arrive(sheets[k].name) = k

(* ---- styles ---- *)
Is1904 == mode \in {"1", "true"}
Serial == Day(date.y, date.m, date.d) - Epoch(IF Is1904 THEN 1904 ELSE 1900)
Instant == [y |-> date.y, m |-> date.m, d |-> date.d, ms |-> 21600000, serial |-> Serial]
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<n>> ELSE Append(DigitsOf(n \div 10), n % 10)
Probe == [neg |-> FALSE, ip |-> DigitsOf(Serial), fp |-> <<2, 5>>]
\* style numbers are 0-based; beyond the table there is no format
Selected(s) == IF s >= Len(xfs) THEN 0 ELSE IF xfs[s + 1].a \in {"0", "false"} THEN 0 ELSE xfs[s + 1].f
Def(f) == IF f \in Ids THEN [r |-> BuiltIn[f].r, type |-> BuiltIn[f].type, code |-> BuiltIn[f].code]
          ELSE LET k == CHOOSE k \in 1..Len(numfmts) : numfmts[k].id = f IN [r |-> Defs[numfmts[k].def].r, type |-> Defs[numfmts[k].def].type, code |-> "*"]
SeenAs(s) == LET f == Selected(s)
                 d == Def(f)
             IN CASE d.type = "date" -> [t |-> "date", v |-> IF f \in Ids THEN ShowAt(f, Instant) ELSE "*", code |-> d.code]
                  [] d.type = "integer" -> [t |-> "integer", v |-> Render(d.r, [Probe EXCEPT !.fp = <<>>]), code |-> d.code]
                  [] d.r.kind = "general" -> [t |-> "float", v |-> Plain(Probe), code |-> d.code]
                  [] d.r.kind \in {"fix", "sci", "eng"} -> [t |-> "float", v |-> IF Claimed(d.r, Probe) THEN Render(d.r, Probe) ELSE "*", code |-> d.code]
                  [] OTHER -> [t |-> "*", v |-> "*", code |-> d.code]
ASSUME Resolves
Switched == phase = "built" => \A s \in 0..Len(xfs) : (s < Len(xfs) /\ xfs[s + 1].a \in {"0", "false"}) => SeenAs(s).v = Plain(Probe)

Emit == /\ phase = "built" /\ phase' = "emitted"
        /\ PrintT(ToJson([wb |-> Join(wb), root |-> Text(root), mode |-> mode,
             sheets |-> [k \in 1..Len(sheets) |-> [name |-> sheets[k].name, id |-> sheets[k].id, path |-> Join(sheets[k].path)]],
             strings |-> Join(aux.strings.path), styles |-> Join(aux.styles.path),
             rels |-> [k \in 1..Len(rels) |-> [id |-> rels[k].id, type |-> rels[k].type, to |-> Text(rels[k].to)]],
             numfmts |-> [k \in 1..Len(numfmts) |-> [id |-> numfmts[k].id, code |-> Defs[numfmts[k].def].code]],
             base |-> base, xfs |-> xfs, probe |-> Plain(Probe),
             seen |-> [s \in 1..(Len(xfs) + 1) |-> SeenAs(s - 1)]]))
        /\ UNCHANGED <<wb, root, sheets, aux, todo, rels, base, xfs, numfmts, mode, date>>
Next == PickBook \/ AddSheet \/ ToAux \/ AddAux("strings", "styles") \/ AddAux("styles", "rels") \/ Rel \/ ToStyles \/ AddFmt \/ ToXfs \/ AddBase \/ ToCellXfs
        \/ AddXf \/ Done \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
