---------------------------- MODULE Grid ----------------------------
(* C03.  The spreadsheet grid the XLS and XLSX readers fill: cells are written
   (Put), get the text result of a formula (Set) or a hyperlink (SetURL), and
   the grid is enlarged, by Resize or by writing outside it.

   Two machines in lockstep: `cells` maps every position ever written to its
   cell (the abstract grid), `rows` is the row-by-row representation an
   implementation keeps.  Refines says the second denotes the first; Preserve
   says a step changes at most the cell it names.                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Rs, Cs, MaxOps, Vals, Fmts, SIM, WIDE    \* WIDE: large steps, no row representation

VARIABLES cells, nr, nc, rows, hist, phase, at
vars == <<cells, nr, nc, rows, hist, phase, at>>
None == [op |-> "", r |-> 0, c |-> 0]

Blank == [t |-> "blank", v |-> "", f |-> 0, u |-> ""]
MaxI(a, b) == IF a > b THEN a ELSE b

(* values by name; what each becomes under a format (CellType decides these in
   general, here a few fixed ones make different cells distinguishable)      *)
\* formats: 0 none, 2 "0.00" (float), 14 date, 1 integer, 49 text, 164 custom "0.000"
Kind(x, f) ==
  CASE x = "" -> "blank"
    [] x \in {"a", "b", "#N/A"} -> "string"
    [] x \in {"<-", "<|", "^|", "^-"} -> "static"
    [] x \in {"1", "2"} -> (CASE f = 0 -> "integer" [] f = 1 -> "integer" [] f \in {2, 164} -> "float" [] f = 14 -> "date" [] f = 49 -> "string")
    [] x \in {"7.0"} -> (CASE f = 0 -> "float" [] f = 1 -> "integer" [] f \in {2, 164} -> "float" [] f = 14 -> "date" [] f = 49 -> "string")
    [] x = "TRUE" -> (CASE f = 0 -> "boolean" [] f = 1 -> "integer" [] f \in {2, 164} -> "float" [] f = 14 -> "boolean" [] f = 49 -> "string")
Written(x, f) == [t |-> Kind(x, f), v |-> IF Kind(x, f) = "blank" THEN "" ELSE x,
                  f |-> IF Kind(x, f) = "static" THEN 0 ELSE f, u |-> ""]

At(p) == IF p \in DOMAIN cells THEN cells[p] ELSE Blank

(* ---- the row representation ---- *)
BlankRow(n) == [k \in 1..n |-> Blank]
GrowRow(row, n) == IF Len(row) >= n THEN row ELSE row \o BlankRow(n - Len(row))
Grow(rs, r, c) == IF WIDE THEN <<>> ELSE LET g == [k \in 1..Len(rs) |-> GrowRow(rs[k], c)]
                  IN IF Len(g) >= r THEN g ELSE g \o [k \in 1..(r - Len(g)) |-> BlankRow(c)]

Log(op, r, c, x, f) == hist' = Append(hist, [op |-> op, r |-> r, c |-> c, x |-> x, f |-> f])

Resize(r, c) ==
  /\ r >= nr /\ c >= nc
  /\ nr' = r /\ nc' = c
  /\ rows' = Grow(rows, r, c)
  /\ UNCHANGED cells
  /\ Log("resize", r, c, "", 0)

Put(r, c, x, f) ==
  /\ nr' = MaxI(nr, r + 1) /\ nc' = MaxI(nc, c + 1)
  /\ cells' = [p \in DOMAIN cells \cup {<<r, c>>} |-> IF p = <<r, c>> THEN Written(x, f) ELSE cells[p]]
  /\ rows' = IF WIDE THEN <<>> ELSE [Grow(rows, nr', nc') EXCEPT ![r + 1][c + 1] = Written(x, f)]
  /\ Log("put", r, c, x, f)

\* a formula's text result: outside the grid it is dropped
Set(r, c, x) ==
  /\ Log("set", r, c, x, 0)
  /\ UNCHANGED <<nr, nc>>
  /\ IF r < nr /\ c < nc
     THEN LET w == [At(<<r, c>>) EXCEPT !.t = "string", !.v = x]
          IN /\ At(<<r, c>>).u = ""
             /\ cells' = [p \in DOMAIN cells \cup {<<r, c>>} |-> IF p = <<r, c>> THEN w ELSE cells[p]]
             /\ rows' = IF WIDE THEN <<>> ELSE [rows EXCEPT ![r + 1][c + 1] = w]
     ELSE UNCHANGED <<cells, rows>>

SetURL(r, c, u) ==
  /\ Log("url", r, c, u, 0)
  /\ UNCHANGED <<nr, nc>>
  /\ IF r < nr /\ c < nc
     THEN LET w == [At(<<r, c>>) EXCEPT !.t = "hyperlink", !.u = u]
          IN /\ cells' = [p \in DOMAIN cells \cup {<<r, c>>} |-> IF p = <<r, c>> THEN w ELSE cells[p]]
             /\ rows' = IF WIDE THEN <<>> ELSE [rows EXCEPT ![r + 1][c + 1] = w]
     ELSE UNCHANGED <<cells, rows>>

\* an operation is chosen in two steps: what and where, then with which value
Choose == /\ at.op = "" /\ Len(hist) <= MaxOps
          /\ \E r \in Rs, c \in Cs, op \in {"put", "set", "url", "resize"} :
               at' = [op |-> op, r |-> r, c |-> c]
          /\ UNCHANGED <<cells, nr, nc, rows, hist, phase>>
Step == /\ \/ at.op = "put" /\ \E x \in Vals, f \in Fmts : Put(at.r, at.c, x, f)
           \/ at.op = "set" /\ \E x \in {"s", "12"} : Set(at.r, at.c, x)
           \/ at.op = "url" /\ \E u \in {"http://h/1", "http://h/2"} : SetURL(at.r, at.c, u)
           \/ at.op = "resize" /\ IF WIDE THEN Resize(MaxI(nr, at.r), MaxI(nc, at.c)) ELSE Resize(nr + at.r, nc + at.c)
        /\ at' = None /\ UNCHANGED phase
\* a text result for a linked cell is not claimed: choose again
Skip == /\ at.op = "set" /\ At(<<at.r, at.c>>).u # "" /\ at' = None
        /\ UNCHANGED <<cells, nr, nc, rows, hist, phase>>

Positions == {p \in DOMAIN cells : cells[p] # Blank}
Final == [ops |-> hist, nr |-> nr, nc |-> nc,
          cells |-> SetToSeq({[r |-> p[1], c |-> p[2], t |-> cells[p].t, v |-> cells[p].v,
                               f |-> cells[p].f, u |-> cells[p].u] : p \in Positions})]

Init == /\ cells = <<>> /\ phase = "go" /\ at = None
        /\ nr \in (IF WIDE THEN {1, 2, 3, 5, 8, 21} ELSE IF SIM THEN 1..3 ELSE 1..2)
        /\ nc \in (IF WIDE THEN {1, 2, 5, 12} ELSE IF SIM THEN 1..3 ELSE 1..2)
        /\ rows = Grow(<<>>, nr, nc)
        /\ hist = <<[op |-> "resize", r |-> nr, c |-> nc, x |-> "", f |-> 0]>>
Next == \/ Choose \/ Step \/ Skip
        \/ phase = "go" /\ at = None /\ Len(hist) = MaxOps + 1 /\ phase' = "emitted" /\ PrintT(ToJson(Final))
           /\ UNCHANGED <<cells, nr, nc, rows, hist, at>>
Spec == Init /\ [][Next]_vars

Shape   == Len(rows) = nr /\ \A k \in 1..nr : Len(rows[k]) = nc
Refines == \A r \in 0..(nr - 1), c \in 0..(nc - 1) : rows[r + 1][c + 1] = At(<<r, c>>)
Inside  == \A p \in DOMAIN cells : p[1] < nr /\ p[2] < nc
Preserve == [][/\ nr' >= nr /\ nc' >= nc
               /\ \A p \in DOMAIN cells : (hist' # hist /\ p # <<Last(hist').r, Last(hist').c>>)
                                              => p \in DOMAIN cells' /\ cells'[p] = cells[p]]_vars
=============================================================================
