---------------------------- MODULE CellShow ----------------------------
(* How a stored cell reads: the styles of the test workbooks, and the type and
   text that a value has under a format.  Shared by XlsCells (C10) and
   XlsxCells (C14).                                                           *)
EXTENDS CellStore

\* style number -> format identifier; styles beyond the table select none
XF == <<0, 1, 2, 4, 9, 10, 14, 49, 164, 3, 39, 11>>
FmtOf(s) == IF s < Len(XF) THEN XF[s + 1] ELSE 0
Code164 == [code |-> "0.000", type |-> "float"]
FType(f) == IF f = 164 THEN "float" ELSE FmtType(f)
FRender(f) == IF f = 164 THEN [N0 EXCEPT !.dec = 3] ELSE BuiltIn[f].r

\* "*" = not claimed (dates are C17's, long numerals nobody's)
Shows(e) ==
  LET ft == FType(e.f)
      s == Store(e.x, ft)
  IN IF e.forced THEN [t |-> "string", v |-> e.x.txt]
     ELSE CASE s.type = "string" -> [t |-> "string", v |-> IF e.x.kind \in {"text", "word"} THEN e.x.txt ELSE "*"]
            [] s.type = "boolean" -> [t |-> "boolean", v |-> s.txt]
            [] s.type = "date" -> [t |-> "date", v |-> "*"]
            [] e.x.kind = "text" /\ ft = "date" -> [t |-> "*", v |-> "*"]
            [] ft = "any" -> [t |-> s.type, v |-> IF Short(s.n) THEN Plain(s.n) ELSE "*"]
            [] OTHER -> [t |-> s.type, v |-> LET n == [s.n EXCEPT !.ip = Strip(@)] IN
                            IF FRender(e.f).kind = "sci" /\ ZeroV(n) THEN "*"
                            ELSE IF Claimed(FRender(e.f), n) THEN Render(FRender(e.f), n) ELSE "*"]
=============================================================================
