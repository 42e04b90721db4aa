---------------------------- MODULE CellStore ----------------------------
(* What a cell holds after a value is written under a number format: shared by
   CellType (C04), XlsCells (C10) and XlsxCells (C14).                        *)
EXTENDS Builtins, Json

\* values: kind, the text as written, its number (for bool 0 or 1)
Num(neg, ip, fp) == [neg |-> neg, ip |-> Strip(ip), fp |-> TrimR(fp)]
NoNum == Num(FALSE, <<0>>, <<>>)
Val(kind, txt, n) == [kind |-> kind, txt |-> txt, n |-> n]

NumericText(n) ==
  LET p == Plain(n)
      sg == IF n.neg THEN "-" ELSE ""
      body == DigStr(n.ip) \o (IF n.fp = <<>> THEN "" ELSE "." \o DigStr(n.fp))
  IN {p, sg \o "00" \o body, sg \o body \o (IF n.fp = <<>> THEN ".0" ELSE "00"), sg \o body \o "e0",
      sg \o DigStr(n.ip \o PadTo(n.fp, 3)) \o "E-" \o D(IF Len(n.fp) > 3 THEN Len(n.fp) ELSE 3)}
     \cup (IF n.neg THEN {} ELSE {"+" \o body})
     \cup (IF n.ip = <<0>> /\ n.fp # <<>> THEN {sg \o "." \o DigStr(n.fp)} ELSE {})
OtherText == {"abc", "1,234", "$5", "5%", "NaN", "nan", "Inf", "-inf", "infinity", "+Infinity", "12abc", " 12", "12 ", "-",
              "+", ".", "e5", "1e", "--1", "1.5.2", "1/2", "12:30", "2020-01-01", "01-Jan-20", "#N/A", "#DIV/0!",
              "1e400", "-1e999", "x1", "0x", "yes", "no", "-(5)", "(5)", "1 2", "null", "%d", "[red]",
              \* {hex} stands for a code point
              "a{1F600}", "{1F600}", "{1F600}b{10FFFF}", "{E9}t{E9}", "{65E5}{672C}", "e{301}", "{FEFF}x", "{E000}{FFFD}",
              "{10000}", "x{D7FF}{1D11E}{E9}y", "{FF11}{FF12}", "{661}", "{A0}7", "tab{9}s", "two{A}lines", "cr{D}{A}", "{0}", "a{0}b",
              "true", "TRUE ", "T", "General", "@", "#0.00", "a?b#c", "\"q\"", "c:\\x", " ", "1{2009}000", "{2212}5", "5{20AC}"}

Kinds(n) == (IF n.fp = <<>> THEN {Val("integer", "", n)} ELSE {}) \cup {Val("float", "", n)}
            \cup {Val("text", t, n) : t \in NumericText(n)}
\* numbers at the edges of the integer types, each as the kinds that hold it exactly
Nat2(ip) == Num(FALSE, ip, <<>>)
Neg2(ip) == Num(TRUE, ip, <<>>)
Edge8 == {Nat2(<<1,2,7>>), Nat2(<<1,2,8>>), Nat2(<<2,5,5>>), Nat2(<<2,5,6>>), Neg2(<<1,2,8>>), Neg2(<<1,2,9>>),
          Neg2(<<1>>), Nat2(<<3,2,7,6,7>>), Nat2(<<3,2,7,6,8>>), Nat2(<<6,5,5,3,5>>), Nat2(<<6,5,5,3,6>>),
          Neg2(<<3,2,7,6,8>>), Neg2(<<3,2,7,6,9>>), Nat2(<<2,1,4,7,4,8,3,6,4,7>>), Nat2(<<2,1,4,7,4,8,3,6,4,8>>),
          Nat2(<<4,2,9,4,9,6,7,2,9,5>>), Nat2(<<4,2,9,4,9,6,7,2,9,6>>), Neg2(<<2,1,4,7,4,8,3,6,4,8>>),
          Neg2(<<2,1,4,7,4,8,3,6,4,9>>), Nat2(<<9,0,0,7,1,9,9,2,5,4,7,4,0,9,9,2>>), Nat2(<<1,6,7,7,7,2,1,6>>), Nat2(<<1,6,7,7,7,2,1,7>>)}
\* more digits than a float has
Edge64 == {Nat2(<<9,0,0,7,1,9,9,2,5,4,7,4,0,9,9,3>>), Neg2(<<9,0,0,7,1,9,9,2,5,4,7,4,0,9,9,5>>),
           Nat2(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>), Nat2(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,6>>),
           Nat2(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>), Nat2(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,9>>),
           Nat2(<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>), Nat2(<<1,2,3,4,5,6,7,8,9,0,1,2,3,4,5,6,7,8>>),
           Neg2(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>), Neg2(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>)}
Power64 == {Nat2(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>), Nat2(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,4,7,8,4>>),
            Nat2(<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,6>>), Nat2(<<4,6,1,1,6,8,6,0,1,8,4,2,7,3,8,7,9,0,4>>),
            Neg2(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,4,7,8,4>>), Neg2(<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,6>>)}
RECURSIVE DigLE(_, _)
DigLE(a, b) == IF a = <<>> THEN TRUE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE DigLE(Tail(a), Tail(b))
Max63(neg) == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0, IF neg THEN 8 ELSE 7>>
\* within 64-bit integers
Fits(n) == Len(n.ip) < 19 \/ (Len(n.ip) = 19 /\ DigLE(n.ip, Max63(n.neg)))
Edges == UNION {Kinds(n) : n \in Edge8}
         \cup {Val("integer", "", n) : n \in Edge64} \cup {Val("text", Plain(n), n) : n \in Edge64}
         \cup {Val("float", "", n) : n \in Power64}

Fixed == {Val("boolean", "TRUE", Num(FALSE, <<1>>, <<>>)), Val("boolean", "FALSE", NoNum),
          Val("blank", "", NoNum), Val("date", "", NoNum)}
         \cup {Val("word", t, NoNum) : t \in OtherText}
\* words that state a truth
Truth == [t \in {"yes", "true", "t", "y", "1", "on", "YES", "TRUE", "T", "Y", "1.0", "ON"} |-> TRUE]
      @@ [t \in {"no", "false", "f", "n", "0", "off", "NO", "FALSE", "F", "N", "0.0", "OFF"} |-> FALSE]

(* formats: every built-in, none of these, and registered ones *)
Custom == 164 :> [code |-> "General", type |-> "any"] @@ 165 :> [code |-> "0.000", type |-> "float"]
       @@ 166 :> [code |-> "000", type |-> "integer"] @@ 167 :> [code |-> "yyyy-mm-dd", type |-> "date"]
       @@ 168 :> [code |-> "@", type |-> "string"] @@ 169 :> [code |-> "0.0%", type |-> "float"]
       @@ 170 :> [code |-> "0%", type |-> "float"] @@ 171 :> [code |-> "#,##0.0", type |-> "float"]
       @@ 172 :> [code |-> "h:mm:ss", type |-> "date"] @@ 173 :> [code |-> "#,##0", type |-> "integer"]
Unknown == {5, 23, 63, 163, 999}
FmtType(f) == IF f \in Ids THEN BuiltIn[f].type ELSE IF f \in DOMAIN Custom THEN Custom[f].type ELSE "any"
Fmts == Ids \cup DOMAIN Custom \cup Unknown

IsNumeric(x) == x.kind \in {"integer", "float", "text"}
\* an integer outside 64 bits is a float
Own(x) == CASE x.kind \in {"text", "word"} -> "string"
            [] x.kind = "integer" /\ ~Fits(x.n) -> "float"
            [] OTHER -> x.kind
Trunc(n) == Num(n.neg /\ ~IsZero(n.ip), n.ip, <<>>)

\* the stored cell: its type, and its number or text
Store(x, ft) ==
  IF x.kind = "blank" THEN [type |-> "blank", n |-> NoNum, txt |-> ""]
  ELSE IF ft = "any" THEN [type |-> Own(x), n |-> x.n, txt |-> x.txt]
  ELSE IF ft = "string" THEN [type |-> "string", n |-> x.n, txt |-> IF x.txt # "" THEN x.txt ELSE "*"]
  ELSE IF x.kind \in {"word", "date"} THEN [type |-> Own(x), n |-> x.n, txt |-> x.txt]
  ELSE IF ft = "date" THEN IF x.kind \in {"integer", "float"} THEN [type |-> "date", n |-> x.n, txt |-> ""]
                           ELSE [type |-> Own(x), n |-> x.n, txt |-> x.txt]
  ELSE IF ft = "integer" /\ ~Fits(x.n) THEN [type |-> "float", n |-> x.n, txt |-> ""]
  ELSE IF ft = "integer" THEN [type |-> "integer", n |-> Trunc(x.n), txt |-> ""]
  ELSE [type |-> "float", n |-> x.n, txt |-> ""]
\* numeric text under a date format is not claimed
ClaimedPair(x, ft) == ~(x.kind = "text" /\ ft = "date")

=============================================================================
