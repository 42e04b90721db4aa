---------------------------- MODULE Compare ----------------------------
(* C26.  How two cells compare.

   Order says for two cells which is less, or that they are equal, or only that
   they differ; TLC checks that it is an order (Laws).  Numbers compare by value
   whatever holds them (integer, floating number, text that denotes one), texts
   by their code points, truths and times among themselves; a blank is equal to
   blanks only and neither less nor greater than anything.                     *)
EXTENDS CellStore

CONSTANTS MODE, MaxIp, MaxFp

VARIABLES a, b, want, phase
vars == <<a, b, want, phase>>

\* ---- the cells: a value and, for texts and times, its place in their order ----
C(kind, txt, n, rank) == [kind |-> kind, txt |-> txt, n |-> n, rank |-> rank]
One(d) == Num(FALSE, d, <<>>)
\* in ascending order; some denote numbers
Texts == <<" ", "#N/A", "$5", "%d", "(5)", "-", "-1", "-10", ".5", "10", "100", "12abc", "1e2", "2", "3.5", "9", "9 ", "<nil>", "A", "AB", "B",
           "Inf", "NaN", "TRUE", "Z", "[red]", "a", "aB", "ab", "abc", "abd", "b", "false", "no", "on", "true", "yes", "z", "zz",
           "{E9}", "{65E5}", "{E000}", "{1F600}", "{1F600}a">>
Denotes == "-1" :> Num(TRUE, <<1>>, <<>>) @@ "-10" :> Num(TRUE, <<1, 0>>, <<>>) @@ ".5" :> Num(FALSE, <<0>>, <<5>>) @@ "10" :> One(<<1, 0>>)
       @@ "100" :> One(<<1, 0, 0>>) @@ "1e2" :> One(<<1, 0, 0>>) @@ "2" :> One(<<2>>) @@ "3.5" :> Num(FALSE, <<3>>, <<5>>) @@ "9" :> One(<<9>>)
TextCells == {IF Texts[r] \in DOMAIN Denotes THEN C("text", Texts[r], Denotes[Texts[r]], r) ELSE C("word", Texts[r], NoNum, r) : r \in 1..Len(Texts)}
\* instants in order; the same one may be written in two zones
Times == {<<1, "1899-12-31T00:00:00Z">>, <<2, "1970-01-01T00:00:00Z">>, <<3, "2021-03-04T05:06:07Z">>, <<3, "2021-03-04T07:06:07+02:00">>,
          <<4, "2021-03-04T05:06:07.001Z">>, <<5, "2021-03-04T05:06:08Z">>, <<6, "2021-03-04T23:30:00-05:00">>, <<7, "2021-03-05T05:00:00Z">>, <<8, "9999-12-31T00:00:00Z">>}
TimeCells == {C("date", t[2], NoNum, t[1]) : t \in Times}
SomeNums == {One(<<0>>), One(<<1>>), One(<<2>>), One(<<5>>), One(<<9>>), One(<<1, 0>>), One(<<1, 1>>), One(<<9, 9>>), One(<<1, 0, 0>>), Num(TRUE, <<1>>, <<>>),
             Num(TRUE, <<2>>, <<>>), Num(TRUE, <<1, 0>>, <<>>), Num(FALSE, <<0>>, <<5>>), Num(TRUE, <<0>>, <<5>>), Num(FALSE, <<0>>, <<0, 0, 1>>),
             Num(FALSE, <<3>>, <<5>>), Num(FALSE, <<3>>, <<>>), Num(FALSE, <<9, 9>>, <<9, 9, 9>>), One(<<2, 1, 4, 7, 4, 8, 3, 6, 4, 8>>),
             One(<<4, 2, 9, 4, 9, 6, 7, 2, 9, 6>>), Num(TRUE, <<2, 1, 4, 7, 4, 8, 3, 6, 4, 9>>, <<>>), One(<<1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2>>)}
\* the ways to hold a number
Held(n) == {C(x.kind, x.txt, n, 0) : x \in {y \in Kinds(n) : y.kind # "text"}} \cup {C("text", Plain(n), n, 0)}
           \cup (IF n.fp = <<>> THEN {C("text", (IF n.neg THEN "-" ELSE "") \o DigStr(n.ip) \o "e0", n, 0)} ELSE {})
BigInts == {m \in Edge64 : Fits(m)} \cup {Nat2(<<9, 0, 0, 7, 1, 9, 9, 2, 5, 4, 7, 4, 0, 9, 9, 2>>), Neg2(<<9, 0, 0, 7, 1, 9, 9, 2, 5, 4, 7, 4, 0, 9, 9, 6>>)}
\* integers that a floating number holds exactly, more than 15 digits long
Doubles == Power64 \cup {Nat2(<<9, 0, 0, 7, 1, 9, 9, 2, 5, 4, 7, 4, 0, 9, 9, 2>>), Neg2(<<9, 0, 0, 7, 1, 9, 9, 2, 5, 4, 7, 4, 0, 9, 9, 6>>), Neg2(<<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8>>),
                          Nat2(<<1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 8, 0>>)}
Big == {C("integer", "", n, 0) : n \in {m \in Edge64 : Fits(m)}}
       \cup {C("text", Plain(n), n, 0) : n \in BigInts}
       \cup {C("float", "", n, 0) : n \in Doubles}
       \cup {C("integer", "", One(<<9, 0, 0, 7, 1, 9, 9, 2, 5, 4, 7, 4, 0, 9, 9, 2>>), 0), C("integer", "", Num(TRUE, <<9, 0, 0, 7, 1, 9, 9, 2, 5, 4, 7, 4, 0, 9, 9, 4>>, <<>>), 0)}
Cells == TextCells \cup TimeCells \cup Big \cup UNION {Held(n) : n \in SomeNums}
         \cup {C("boolean", "TRUE", NoNum, 0), C("boolean", "FALSE", NoNum, 0), C("blank", "", NoNum, 0), C("none", "", NoNum, 0)}

\* ---- the order ----
RECURSIVE DigCmp(_, _)
DigCmp(x, y) == IF x = <<>> THEN 0 ELSE IF Head(x) < Head(y) THEN -1 ELSE IF Head(x) > Head(y) THEN 1 ELSE DigCmp(Tail(x), Tail(y))
Wide(x, y) == IF Len(x) > Len(y) THEN Len(x) ELSE Len(y)
Pad(x, w) == x \o [i \in 1..(w - Len(x)) |-> 0]
AbsCmp(x, y) == IF Len(x.ip) < Len(y.ip) THEN -1 ELSE IF Len(x.ip) > Len(y.ip) THEN 1
                ELSE LET c == DigCmp(x.ip, y.ip) IN IF c # 0 THEN c ELSE DigCmp(Pad(x.fp, Wide(x.fp, y.fp)), Pad(y.fp, Wide(x.fp, y.fp)))
NumCmp(x, y) == IF x.neg /\ ~y.neg THEN -1 ELSE IF ~x.neg /\ y.neg THEN 1 ELSE IF x.neg THEN AbsCmp(y, x) ELSE AbsCmp(x, y)
Say(c) == IF c < 0 THEN "lt" ELSE IF c > 0 THEN "gt" ELSE "eq"

Empty(x) == x.kind \in {"blank", "none"}
Numeric(x) == x.kind \in {"integer", "float"}
Textual(x) == x.kind \in {"text", "word"}
Whole(x) == (x.kind = "float" /\ x.n \in Doubles) \/ x.kind = "integer" \/ (x.kind = "text" /\ x.txt = Plain(x.n) /\ x.n.fp = <<>> /\ Fits(x.n))
Digits(x) == Len(x.n.ip) + Len(x.n.fp)
Worth(x) == IF x.kind = "boolean" THEN (IF x.txt = "TRUE" THEN One(<<1>>) ELSE NoNum) ELSE x.n
Order(x, y) ==
  IF Empty(x) \/ Empty(y) THEN IF Empty(x) /\ Empty(y) THEN "eq" ELSE "apart"
  ELSE IF x.kind = "boolean" \/ y.kind = "boolean"
       THEN \* a truth counts as 1 or 0
            IF Numeric(x) \/ Numeric(y) THEN Say(NumCmp(Worth(x), Worth(y)))
            ELSE IF x.kind # y.kind THEN "any" ELSE IF x.txt = y.txt THEN "eq" ELSE IF x.txt = "FALSE" THEN "lt" ELSE "gt"
  ELSE IF x.kind = "date" /\ y.kind = "date" THEN Say(x.rank - y.rank)
  ELSE IF x.kind = "date" \/ y.kind = "date" THEN "ne"
  ELSE IF Textual(x) /\ Textual(y) THEN IF x.txt = y.txt THEN "eq" ELSE IF x.rank = 0 \/ y.rank = 0 THEN "ne" ELSE Say(x.rank - y.rank)
  ELSE IF x.kind = "word" \/ y.kind = "word" THEN "ne"
  \* more digits than a floating number has: only among integers, the texts that
  \* write one and floating numbers known to hold theirs exactly
  ELSE IF (Digits(x) > 15 \/ Digits(y) > 15) /\ ~(Whole(x) /\ Whole(y)) THEN "any"
  ELSE Say(NumCmp(x.n, y.n))

Flip(o) == IF o = "lt" THEN "gt" ELSE IF o = "gt" THEN "lt" ELSE o
Laws == phase = "pair" =>
          /\ Order(a, a) = "eq"
          /\ Order(b, a) = Flip(Order(a, b))
          /\ (Order(a, b) = "eq" => (Empty(a) <=> Empty(b)))
\* transitive among cells of one family
Family(x) == IF Numeric(x) THEN "number" ELSE IF Textual(x) THEN (IF x.rank > 0 THEN "words" ELSE "loose") ELSE x.kind
Kin(x) == {y \in Cells : Family(y) = Family(x) /\ Family(x) # "loose"}
Chain == phase = "one" => \A y \in Kin(a) : Order(a, y) \in {"lt", "eq"} =>
           \A z \in Kin(a) : Order(y, z) \in {"lt", "eq"} /\ Order(a, z) # "any" =>
             Order(a, z) = (IF Order(a, y) = "eq" THEN Order(y, z) ELSE "lt")

Show(x) == [kind |-> x.kind, txt |-> x.txt, num |-> Plain(x.n)]
Emit == /\ phase = "pair" /\ phase' = "emitted"
        /\ PrintT(ToJson([a |-> Show(a), b |-> Show(b), o |-> Order(a, b)]))
        /\ UNCHANGED <<a, b, want>>

\* every pair of a fixed set
First == phase = "exh" /\ \E x \in Cells : a' = x /\ phase' = "one" /\ UNCHANGED <<b, want>>
Second == phase = "one" /\ \E y \in Cells : b' = y /\ phase' = "pair" /\ UNCHANGED <<a, want>>

\* random numbers and close neighbours of them
GrowA == /\ phase = "sim" /\ Len(a.n.ip) + Len(a.n.fp) < want[1] + want[2]
         /\ \E d \in 0..9 : a' = IF Len(a.n.ip) < want[1] THEN [a EXCEPT !.n.ip = Append(@, d)] ELSE [a EXCEPT !.n.fp = Append(@, d)]
         /\ UNCHANGED <<b, want, phase>>
Twin == /\ phase = "sim" /\ Len(a.n.ip) + Len(a.n.fp) = want[1] + want[2]
        /\ \E i \in 0..(want[1] + want[2] + 1), d \in 0..9 :
             LET n == a.n IN
             b' = IF i = 0 THEN a
                  ELSE IF i <= want[1] THEN [a EXCEPT !.n.ip[i] = d]
                  ELSE IF i <= want[1] + want[2] THEN [a EXCEPT !.n.fp[i - want[1]] = d]
                  ELSE [a EXCEPT !.n.neg = ~@]
        /\ phase' = "hold" /\ UNCHANGED <<a, want>>
Norm(n) == LET m == Num(n.neg, n.ip, n.fp) IN IF ZeroV(m) THEN NoNum ELSE m
Hold == /\ phase = "hold"
        /\ \E x \in Held(Norm(a.n)) : a' = x
        /\ \E y \in Held(Norm(b.n)) : b' = y
        /\ phase' = "pair" /\ UNCHANGED want

Init == /\ want \in IF MODE = "exh" THEN {<<0, 0>>} ELSE (1..MaxIp) \X (0..MaxFp)
        /\ a \in IF MODE = "exh" THEN {C("none", "", NoNum, 0)} ELSE {C("none", "", [neg |-> s, ip |-> <<>>, fp |-> <<>>], 0) : s \in BOOLEAN}
        /\ b = a /\ phase = MODE
Next == First \/ Second \/ GrowA \/ Twin \/ Hold \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
