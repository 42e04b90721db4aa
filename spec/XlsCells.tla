---------------------------- MODULE XlsCells ----------------------------
(* C10.  The cell records of an XLS sheet.  The writer appends records of every
   kind at chosen positions with chosen styles; the sheet it denotes is the map
   from position to the last value stored there, typed and rendered by the
   number format the style selects.  Compact numbers are built from their
   digits: an integer or a multiple of 1/8, plain or divided by a hundred.

   Read replays the record list the way a reader must (runs of compact numbers
   occupy consecutive columns, a text result follows its formula) and TLC checks
   that it arrives at the writer's map.                                        *)
EXTENDS CellShow

CONSTANTS NR, NC, MaxOps, MaxDigits, Styles, DS

VARIABLES ops,    \* records so far
          cell,   \* the map: <<r, c>> -> [x (value), f (format), forced]
          cur,    \* the record being built
          phase
vars == <<ops, cell, cur, phase>>

Errors == (0 :> "#NULL!") @@ (7 :> "#DIV/0!") @@ (15 :> "#VALUE!") @@ (23 :> "#REF!") @@ (29 :> "#NAME?")
          @@ (36 :> "#NUM!") @@ (42 :> "#N/A") @@ (43 :> "#GETTING_DATA")
Words == <<"abc", "x y", "12", "1.5", "TRUE", "", "0">>

NoCur == [k |-> "none", r |-> 0, c |-> 0, s |-> 0, enc |-> "", neg |-> FALSE, ds |-> <<>>, want |-> 0, pt |-> 0, i |-> 0, run |-> <<>>]
Init == ops = <<>> /\ cell = <<>> /\ cur = NoCur /\ phase = "write"

(* ---- the number a digit string denotes under an encoding ---- *)
RECURSIVE Val10(_)
Val10(ds) == IF ds = <<>> THEN 0 ELSE Val10(Front(ds)) * 10 + Last(ds)
RECURSIVE Dig(_)
Dig(n) == IF n < 10 THEN <<n>> ELSE Append(Dig(n \div 10), n % 10)
Split(ds, p) == LET m == IF Len(ds) <= p THEN Zeros(p + 1 - Len(ds)) \o ds ELSE ds
                IN [ip |-> Strip(SubSeq(m, 1, Len(m) - p)), fp |-> SubSeq(m, Len(m) - p + 1, Len(m))]
Denotes(e) ==
  LET p == CASE e.enc = "rki" -> Split(e.ds, 0)
             [] e.enc = "rkh" -> Split(e.ds, 2)
             [] e.enc = "rkf" -> Split(Dig(Val10(e.ds) * 125), 3)
             [] e.enc = "rkfh" -> Split(Dig(Val10(e.ds) * 125), 5)
             [] OTHER -> Split(e.ds, e.pt)
      n == Num(e.neg, p.ip, p.fp)
  IN IF ZeroV(n) THEN [n EXCEPT !.neg = FALSE] ELSE n
Holds(e) == CASE e.enc = "rki" \/ e.enc = "rkh" -> Len(e.ds) < 9 \/ (Len(e.ds) = 9 /\ e.ds[1] < 5)
             [] e.enc \in {"rkf", "rkfh"} -> Val10(e.ds) < 524288
             [] OTHER -> TRUE
NumVal(e) == Val(IF e.enc = "rki" THEN "integer" ELSE "float", "", Denotes(e))

(* ---- building a record ---- *)
Kinds1 == {"number", "rk", "mulrk", "bool", "err", "label", "fnum", "ftext", "fbool", "ferr", "fempty", "blank"}
Pick == /\ phase = "write" /\ cur.k = "none" /\ Len(ops) < MaxOps
        /\ \E k \in Kinds1 : cur' = [NoCur EXCEPT !.k = k, !.want = 99]
        /\ UNCHANGED <<ops, cell, phase>>
Where == /\ cur.k # "none" /\ cur.want = 99
         /\ \E r \in 0..(NR - 1), c \in 0..(NC - 1) : cur' = [cur EXCEPT !.r = r, !.c = c, !.want = 98]
         /\ (cur.k \in {"fempty", "blank"} => <<cur'.r, cur'.c>> \notin DOMAIN cell)
         /\ UNCHANGED <<ops, cell, phase>>
Style == /\ cur.want = 98
         /\ \E s \in Styles : cur' = [cur EXCEPT !.s = s, !.want = 97]
         /\ UNCHANGED <<ops, cell, phase>>
IsNum == cur.k \in {"number", "rk", "mulrk", "fnum"}
How == /\ cur.want = 97 /\ IsNum
       /\ \E n \in BOOLEAN, w \in 1..MaxDigits,
            e \in (IF cur.k \in {"rk", "mulrk"} THEN {"rki", "rkh", "rkf", "rkfh"} ELSE {"d"}) :
            cur' = [cur EXCEPT !.enc = e, !.neg = n, !.want = w, !.ds = <<>>]
       /\ UNCHANGED <<ops, cell, phase>>
Digit == /\ cur.want <= MaxDigits /\ IsNum /\ Len(cur.ds) < cur.want
         /\ \E d \in DS : cur' = [cur EXCEPT !.ds = Append(@, d)]
         /\ Holds(cur')
         /\ UNCHANGED <<ops, cell, phase>>
\* a digit may be refused because the number gets too large: stop there
Stop == /\ cur.want <= MaxDigits /\ IsNum /\ Len(cur.ds) < cur.want /\ cur.ds # <<>>
        /\ \A d \in DS : ~Holds([cur EXCEPT !.ds = Append(@, d)])
        /\ cur' = [cur EXCEPT !.want = Len(cur.ds)] /\ UNCHANGED <<ops, cell, phase>>

Store1(pos, x, f, forced) == (pos :> [x |-> x, f |-> f, forced |-> forced])
Number == /\ IsNum /\ cur.want <= MaxDigits /\ Len(cur.ds) = cur.want /\ cur.k # "mulrk"
          /\ \E p \in (IF cur.enc = "d" THEN 0..(IF cur.want > 5 THEN 5 ELSE cur.want) ELSE {0}) :
               LET e == [cur EXCEPT !.pt = p] IN
               /\ ops' = Append(ops, e)
               /\ cell' = Store1(<<cur.r, cur.c>>, NumVal(e), FmtOf(cur.s), FALSE) @@ cell
          /\ cur' = NoCur /\ UNCHANGED phase
\* one more compact number of a run, with its own style
Extend == /\ cur.k = "mulrk" /\ cur.want <= MaxDigits /\ Len(cur.ds) = cur.want
          /\ cur.c + Len(cur.run) + 1 < NC
          /\ \E s \in Styles : cur' = [cur EXCEPT !.run = Append(@, [enc |-> cur.enc, neg |-> cur.neg, ds |-> cur.ds, s |-> cur.s, pt |-> 0]),
                                                  !.s = s, !.want = 97]
          /\ UNCHANGED <<ops, cell, phase>>
RunEnd == /\ cur.k = "mulrk" /\ cur.want <= MaxDigits /\ Len(cur.ds) = cur.want
          /\ LET run == Append(cur.run, [enc |-> cur.enc, neg |-> cur.neg, ds |-> cur.ds, s |-> cur.s, pt |-> 0])
             IN /\ ops' = Append(ops, [cur EXCEPT !.run = run])
                /\ cell' = [p \in {<<cur.r, cur.c + j - 1>> : j \in 1..Len(run)} |->
                              LET q == run[p[2] - cur.c + 1] IN [x |-> NumVal(q), f |-> FmtOf(q.s), forced |-> FALSE]] @@ cell
          /\ cur' = NoCur /\ UNCHANGED phase
Other == /\ cur.want = 97 /\ ~IsNum
         /\ \E i \in (CASE cur.k \in {"bool", "fbool"} -> {0, 1} [] cur.k \in {"err", "ferr"} -> DOMAIN Errors
                        [] cur.k = "label" -> {j \in 1..Len(Words) : Words[j] # "" \/ <<cur.r, cur.c>> \notin DOMAIN cell}
                        [] cur.k = "ftext" -> 1..Len(Words) [] OTHER -> {0}) :
              /\ ops' = Append(ops, [cur EXCEPT !.i = i])
              /\ LET pos == <<cur.r, cur.c>>
                     f == FmtOf(cur.s)
                 IN cell' = CASE cur.k \in {"bool", "fbool"} ->
                                   Store1(pos, Val("boolean", IF i = 1 THEN "TRUE" ELSE "FALSE", Num(FALSE, <<i>>, <<>>)), f, FALSE) @@ cell
                              [] cur.k \in {"err", "ferr"} -> Store1(pos, Val("word", Errors[i], NoNum), 0, FALSE) @@ cell
                              [] cur.k = "label" -> IF Words[i] = "" THEN cell ELSE
                                   Store1(pos, CASE Words[i] = "12" -> Val("text", "12", Num(FALSE, <<1, 2>>, <<>>))
                                                 [] Words[i] = "1.5" -> Val("text", "1.5", Num(FALSE, <<1>>, <<5>>))
                                                 [] Words[i] = "0" -> Val("text", "0", NoNum)
                                                 [] OTHER -> Val("word", Words[i], NoNum), f, FALSE) @@ cell
                              [] cur.k = "ftext" -> Store1(pos, Val("word", Words[i], NoNum), f, TRUE) @@ cell
                              [] OTHER -> cell
         /\ cur' = NoCur /\ UNCHANGED phase
Seal == /\ phase = "write" /\ cur.k = "none" /\ Len(ops) = MaxOps /\ phase' = "built" /\ UNCHANGED <<ops, cell, cur>>

(* ---- the reader: last writer wins, record by record ---- *)
Writes(o) == IF o.k = "mulrk" THEN [j \in 1..Len(o.run) |-> <<<<o.r, o.c + j - 1>>, Denotes(o.run[j])>>]
             ELSE IF o.k \in {"number", "rk", "fnum"} THEN <<<<<<o.r, o.c>>, Denotes(o)>>>>
             ELSE IF o.k \in {"fempty", "blank"} \/ (o.k = "label" /\ Words[o.i] = "") THEN <<>>
             ELSE <<<<<<o.r, o.c>>, NoNum>>>>
AllWrites == FoldLeft(LAMBDA a, o : a \o Writes(o), <<>>, ops)
LastWrites == phase = "built" =>
   /\ DOMAIN cell = {AllWrites[j][1] : j \in 1..Len(AllWrites)}
   /\ \A p \in DOMAIN cell :
        LET j == CHOOSE m \in 1..Len(AllWrites) : AllWrites[m][1] = p /\ \A q \in (m + 1)..Len(AllWrites) : AllWrites[q][1] # p
        IN IsNumeric(cell[p].x) /\ cell[p].x.kind # "text" => cell[p].x.n = AllWrites[j][2]

Emit == /\ phase = "built" /\ phase' = "emitted"
        /\ PrintT(ToJson([ops |-> ops,
             cells |-> {[r |-> p[1], c |-> p[2], t |-> Shows(cell[p]).t, v |-> Shows(cell[p]).v,
                         f |-> cell[p].f, code |-> IF cell[p].f = 164 THEN "*" ELSE BuiltIn[cell[p].f].code] : p \in DOMAIN cell}]))
        /\ UNCHANGED <<ops, cell, cur>>
Next == Pick \/ Where \/ Style \/ How \/ Digit \/ Stop \/ Number \/ Extend \/ RunEnd \/ Other \/ Seal \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
