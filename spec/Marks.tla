---------------------------- MODULE Marks ----------------------------
(* C11 and C12.  Merged regions and hyperlinks on the sheets of both
   spreadsheet formats.  The writer chooses a format, the declared used area,
   which positions hold values, disjoint regions (possibly reaching beyond the
   used area, or "to the end") and links over single cells, over a region of
   their own, or over a merged one.

   Read is the reader: a grid, filled record by record.  The invariants below
   state what C11 and C12 say about the result, position by position, without
   reference to the order in which the reader works.                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS NR, NC,        \* regions and values start inside NR x NC
          Span,          \* rows and columns a region adds to its first at most, unless to the end
          MaxReg, MaxLink,
          Values,        \* what a position may hold ("" for nothing)
          WIDE,          \* link parts of every kind and length
          Ordered        \* only regions and links in order of position

Far == 9999
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

VARIABLES kind,   \* "xls" or "xlsx"
          dim,    \* declared area: <<rows, cols>>, <<>> when not declared
          vals,   \* position -> value
          regs,   \* merged regions
          links,
          cur, i, phase
vars == <<kind, dim, vals, regs, links, cur, i, phase>>

NoCur == [w |-> "none", r1 |-> 0, c1 |-> 0, r2 |-> 0, c2 |-> 0, t |-> "", disp |-> "", frame |-> "", loc |-> "", ex |-> 0]
Init == kind = "?" /\ dim = <<>> /\ vals = <<>> /\ regs = <<>> /\ links = <<>> /\ cur = NoCur /\ i = 0 /\ phase = "kind"

Rows(m) == IF DOMAIN m = {} THEN 0 ELSE CHOOSE n \in 1..NR : (\E p \in DOMAIN m : p[1] = n - 1) /\ \A p \in DOMAIN m : p[1] < n
Cols(m) == IF DOMAIN m = {} THEN 0 ELSE CHOOSE n \in 1..NC : (\E p \in DOMAIN m : p[2] = n - 1) /\ \A p \in DOMAIN m : p[2] < n
\* the used area: what was declared and what holds values
Used == <<Max2(Rows(vals), IF dim = <<>> THEN 0 ELSE dim[1]), Max2(Cols(vals), IF dim = <<>> THEN 0 ELSE dim[2])>>

Kind == /\ phase = "kind" /\ kind' \in {"xls", "xlsx"} /\ phase' = "vals" /\ UNCHANGED <<dim, vals, regs, links, cur, i>>
Value == /\ phase = "vals" /\ i < NR * NC
         /\ \E v \in Values :
              vals' = IF v = "" THEN vals ELSE (<<i \div NC, i % NC>> :> v) @@ vals
         /\ i' = i + 1 /\ UNCHANGED <<kind, dim, regs, links, cur, phase>>
Dim == /\ phase = "vals" /\ i = NR * NC
       /\ LET ex == <<Rows(vals), Cols(vals)>>
          IN dim' \in {ex, <<NR, NC>>, <<1, 1>>} \cup (IF kind = "xlsx" THEN {<<>>} ELSE {})
       /\ (kind = "xlsx" /\ dim' # <<>> => dim'[1] > 0)
       /\ phase' = "regs" /\ UNCHANGED <<kind, vals, regs, links, cur, i>>

Meets(a, b) == ~(a.r2 < b.r1 \/ b.r2 < a.r1 \/ a.c2 < b.c1 \/ b.c2 < a.c1)
\* the end of an XLS region "to the end" needs a truthful declaration
FarOk == kind = "xlsx" \/ dim = Used
Free(x, set) == \A k \in 1..Len(set) : ~Meets(x, set[k])

Start(w) == /\ cur.w = "none"
            /\ \E r \in 0..(NR - 1), c \in 0..(NC - 1) :
                 cur' = [NoCur EXCEPT !.w = w, !.r1 = r, !.c1 = c, !.r2 = r, !.c2 = c]
            /\ Free(cur', regs) /\ Free(cur', links)
            /\ LET done == IF w = "reg" THEN regs ELSE links
                   at(x) == x.r1 * NC + x.c1
               IN ~Ordered \/ \A k \in 1..Len(done) : at(done[k]) < at(cur')
            /\ UNCHANGED <<kind, dim, vals, regs, links, i, phase>>
EndRow == /\ cur.w \in {"reg", "link"}
          /\ \E r \in cur.r1..Min2(NR + 1, cur.r1 + Span) \cup (IF FarOk THEN {Far} ELSE {}) : cur' = [cur EXCEPT !.r2 = r, !.w = IF cur.w = "reg" THEN "regc" ELSE "linkc"]
          /\ Free(cur', regs) /\ Free(cur', links)
          /\ UNCHANGED <<kind, dim, vals, regs, links, i, phase>>
EndCol == /\ cur.w \in {"regc", "linkc"}
          /\ \E c \in cur.c1..Min2(NC + 1, cur.c1 + Span) \cup (IF FarOk THEN {Far} ELSE {}) : cur' = [cur EXCEPT !.c2 = c, !.w = IF cur.w = "regc" THEN "regd" ELSE "linkt"]
          /\ Free(cur', regs) /\ Free(cur', links)
          /\ UNCHANGED <<kind, dim, vals, regs, links, i, phase>>
RegDone == /\ cur.w = "regd" /\ regs' = Append(regs, cur) /\ cur' = NoCur
           /\ UNCHANGED <<kind, dim, vals, links, i, phase>>
Region == phase = "regs" /\ ((Len(regs) < MaxReg /\ Start("reg")) \/ EndRow \/ EndCol \/ RegDone)
ToLinks == /\ phase = "regs" /\ cur.w = "none" /\ phase' = "links"
           /\ UNCHANGED <<kind, dim, vals, regs, links, cur, i>>

\* links of an XLS sheet start inside its declared area
LinkAt(x) == IF kind = "xlsx" THEN TRUE ELSE x.r1 < dim[1] /\ x.c1 < dim[2]
LinkStart == Len(links) < MaxLink /\ Start("link") /\ LinkAt(cur')
\* over a merged region
LinkOver == /\ Len(links) < MaxLink /\ cur.w = "none"
            /\ \E k \in 1..Len(regs) :
                 /\ Free(regs[k], links) /\ LinkAt(regs[k])
                 /\ cur' = [regs[k] EXCEPT !.w = "linkt"]
            /\ UNCHANGED <<kind, dim, vals, regs, links, i, phase>>
Targets == {"http://example.com/", "https://ex.org/a/b?c=d&e={u}", "mailto:a@b.c"} \cup
  (IF WIDE THEN {"http://h/", "ftp://h/a%20b/(1)", "news:c", "h", "abcdefghijkl", "abcdefghijklm", "http://long.example/{long}",
                 "/a/b", "..", "file:///C:/x%20y.txt", "{u}"} ELSE {})
XlsTargets == Targets \cup {""} \cup (IF WIDE THEN {"#", "a b", "x\"y<z>"} ELSE {})
Files == {"C:\\dir\\file.txt", "..\\book.xls"} \cup (IF WIDE THEN {"a", "\\\\srv\\share\\a b.doc", "{long}"} ELSE {})
Displays == {"", "Click {u} me", "x"} \cup (IF WIDE THEN {"ab", "{long}", "a <b>"} ELSE {})
Frames == {"", "_blank"} \cup (IF WIDE THEN {"_top", "m", "{u}"} ELSE {})
Locations == {"", "Sheet2!A1", "{u}"} \cup (IF WIDE THEN {"a", "'My Sheet'!$B$2:$C$3", "{long}"} ELSE {})
Target == /\ cur.w = "linkt"
          /\ \E t \in (IF kind = "xls" THEN {"url", "urlguid", "file", "fileu", "str", "doc"} ELSE {"url", "doc"}) :
               cur' = [cur EXCEPT !.t = t, !.w = "linkd"]
          /\ UNCHANGED <<kind, dim, vals, regs, links, i, phase>>
Display == /\ cur.w = "linkd"
           /\ \E d \in Displays, f \in Frames : cur' = [cur EXCEPT !.disp = d, !.frame = f, !.w = "linkl"]
           /\ (kind = "xlsx" => cur'.frame = "")
           /\ UNCHANGED <<kind, dim, vals, regs, links, i, phase>>
Where == /\ cur.w = "linkl"
         /\ \E l \in Locations : cur' = [cur EXCEPT !.loc = l, !.w = "linkx"]
         /\ (cur.t = "doc" => cur'.loc # "")
         /\ (kind = "xlsx" /\ cur.t # "doc" => cur'.loc = "")
         /\ UNCHANGED <<kind, dim, vals, regs, links, i, phase>>
LinkDone == /\ cur.w = "linkx"
            /\ \E tt \in (IF cur.t \in {"file", "fileu"} THEN Files ELSE IF cur.t = "doc" THEN {""} ELSE IF kind = "xls" THEN XlsTargets ELSE Targets), x \in {0, 1, 2} :
                 links' = Append(links, [cur EXCEPT !.w = tt, !.ex = x])
            /\ cur' = NoCur /\ UNCHANGED <<kind, dim, vals, regs, i, phase>>
Link == phase = "links" /\ (LinkStart \/ LinkOver \/ EndRow \/ EndCol \/ Target \/ Display \/ Where \/ LinkDone)
Seal == phase = "links" /\ cur.w = "none" /\ phase' = "built" /\ UNCHANGED <<kind, dim, vals, regs, links, cur, i>>

(* ---- the reader ---- *)
\* an XLSX region ends with the used area, an XLS one only when it says so
Clip(x) == [x EXCEPT !.r2 = IF kind = "xlsx" \/ @ = Far THEN Min2(@, Used[1] - 1) ELSE @,
                     !.c2 = IF kind = "xlsx" \/ @ = Far THEN Min2(@, Used[2] - 1) ELSE @]
Positions(x) == {<<r, c>> : r \in x.r1..x.r2, c \in x.c1..x.c2}
Mark(x, p) == IF p[2] = x.c1 THEN (IF p[1] = x.r2 THEN "^-" ELSE "^|")
              ELSE IF p[2] = x.c2 THEN "<|" ELSE "<-"
Cover(g, x) == [p \in DOMAIN g \cup (Positions(x) \ {<<x.r1, x.c1>>}) |->
                 IF p \in Positions(x) \ {<<x.r1, x.c1>>} THEN Mark(x, p) ELSE g[p]]
External(l) == l.t # "doc"
Full(l) == IF l.t = "doc" \/ l.w = "" THEN l.loc ELSE IF l.loc = "" THEN l.w ELSE l.w \o "#" \o l.loc
Attach(g, l) ==
  IF kind = "xls" THEN Cover((<<l.r1, l.c1>> :> (l.disp \o " <" \o Full(l) \o ">")) @@ g, Clip(l))
  ELSE IF External(l) THEN (<<l.r1, l.c1>> :> l.w) @@ g ELSE g
Read == FoldLeft(Attach, FoldLeft(LAMBDA g, x : Cover(g, Clip(x)), vals, regs), links)

(* ---- what C11 and C12 say ---- *)
At(g, p) == IF p \in DOMAIN g THEN g[p] ELSE ""
Marked == [k \in 1..Len(regs) |-> Clip(regs[k])] \o (IF kind = "xls" THEN [k \in 1..Len(links) |-> Clip(links[k])] ELSE <<>>)
Anchors(ls) == {<<ls[k].r1, ls[k].c1>> : k \in 1..Len(ls)}
MarkedRight == phase = "built" =>
  LET g == Read IN
  \A k \in 1..Len(Marked) :
    LET x == Marked[k] IN
    /\ <<x.r1, x.c1>> \notin Anchors(links) => At(g, <<x.r1, x.c1>>) = At(vals, <<x.r1, x.c1>>)
    /\ x.c2 >= x.c1 => \A r \in (x.r1 + 1)..x.r2 : At(g, <<r, x.c1>>) = IF r = x.r2 THEN "^-" ELSE "^|"
    /\ \A r \in x.r1..x.r2, c \in (x.c1 + 1)..x.c2 : At(g, <<r, c>>) = IF c = x.c2 THEN "<|" ELSE "<-"
Covered == UNION {Positions(Marked[k]) : k \in 1..Len(Marked)} \cup Anchors(links)
OthersKept == phase = "built" => \A p \in DOMAIN Read \cup DOMAIN vals : p \notin Covered => At(Read, p) = At(vals, p)
NoGrowth == phase = "built" /\ kind = "xlsx" =>
  \A p \in DOMAIN Read : p \in Anchors(links) \/ (p[1] < Used[1] /\ p[2] < Used[2])
LinkText == phase = "built" =>
  \A k \in 1..Len(links) :
    LET l == links[k]
        p == <<l.r1, l.c1>> IN
    IF kind = "xlsx" THEN At(Read, p) = IF External(l) THEN l.w ELSE At(vals, p)
    ELSE At(Read, p) = l.disp \o " <" \o Full(l) \o ">"

Reg(x) == [r1 |-> x.r1, c1 |-> x.c1, r2 |-> x.r2, c2 |-> x.c2]
Emit == /\ phase = "built" /\ phase' = "emitted"
        /\ PrintT(ToJson([kind |-> kind, dim |-> dim, vals |-> {[r |-> p[1], c |-> p[2], v |-> vals[p]] : p \in DOMAIN vals},
                          regs |-> [k \in 1..Len(regs) |-> Reg(regs[k])],
                          links |-> [k \in 1..Len(links) |-> LET l == links[k] IN
                             [r1 |-> l.r1, c1 |-> l.c1, r2 |-> l.r2, c2 |-> l.c2, t |-> l.t, target |-> l.w, disp |-> l.disp,
                              frame |-> l.frame, loc |-> l.loc, ex |-> l.ex]],
                          cells |-> {[r |-> p[1], c |-> p[2], v |-> Read[p],
                                      t |-> IF kind = "xlsx" /\ \E k \in 1..Len(links) : External(links[k]) /\ p = <<links[k].r1, links[k].c1>>
                                            THEN "hyperlink" ELSE IF Read[p] \in {"^-", "^|", "<|", "<-"} THEN "*"
                                            ELSE IF p \in DOMAIN vals /\ Read[p] = vals[p] /\ vals[p] = "5" THEN "float" ELSE "string"]
                                     : p \in DOMAIN Read}]))
        /\ UNCHANGED <<kind, dim, vals, regs, links, cur, i>>
Next == Kind \/ Value \/ Dim \/ Region \/ ToLinks \/ Link \/ Seal \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
