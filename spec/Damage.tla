------------------------------ MODULE Damage ------------------------------
(* C24, .xls.  A workbook with every kind of record, damaged: records cut short,
   lost, doubled, strangers between them, single bytes changed, lost or added,
   the end missing.  Then it is read, one record at a time, as Biff says: the
   outcome is a refusal of the whole, or for every sheet on its own a refusal or
   what its bytes say.                                                        *)
EXTENDS Biff, Json

CONSTANTS MaxRec, MaxByte, MaxFaults, Marks, Strangers, Kinds

VARIABLES parts,   \* the records of the globals and of the two sheets
          raw, nf, nrec, nbyte, local, phase,
          pos, subs, nest, \* scanning: parts of the stream found, [p, rs]
          g, k, open, sheets, aim
vars == <<parts, raw, nf, nrec, nbyte, local, phase, pos, subs, nest, g, k, open, sheets, aim>>

R(t, d) == [t |-> t, d |-> d]
Zeros(n) == [i \in 1..n |-> 0]
Bof(ty) == R(tBOF, E16(1536) \o E16(ty) \o E16(3515) \o E16(1996) \o <<65, 0, 0, 0, 6, 0, 0, 0>>)
Eof == R(tEOF, <<>>)
Cell(r, c, x) == E16(r) \o E16(c) \o E16(x)
F75 == <<0, 0, 0, 0, 0, 0, 30, 64>>
Formula(r, c, x, v) == R(tFormula, Cell(r, c, x) \o v \o E16(0) \o E32(0) \o E16(3) \o <<30, 1, 0>>)
Xf1(f) == R(tXF, E16(0) \o E16(f) \o Zeros(16))

Globals(pa, pb) ==
  << Bof(5), R(tCodePage, E16(1200)), R(tDate1904, E16(0)), R(tFormat, E16(164) \o E16(4) \o <<0, 48, 46, 48, 48>>),
     Xf1(0), Xf1(164), Xf1(0),
     R(tBoundSheet, E32(pa) \o <<0, 0, 1, 0, 65>>), R(tBoundSheet, E32(pb) \o <<0, 0, 2, 1, 66, 0, 50, 0>>),
     R(tSST, E32(5) \o E32(5) \o E16(2) \o <<0, 97, 98>> \o
             E16(1) \o <<13>> \o E16(1) \o E32(4) \o <<233, 0, 0, 0, 1, 0, 1, 2, 3, 4>> \o E16(4) \o <<0, 99, 100>>),
     R(tContinue, <<1, 101, 0, 102, 0>> \o E16(1) \o <<8>> \o E16(1) \o <<103, 0, 0>>),
     R(tContinue, <<1, 0>> \o E16(0) \o <<0>>),
     Eof >>
SheetA ==
  << Bof(16), R(tWsBool, E16(1217)), R(tDimensions, E32(0) \o E32(6) \o E16(0) \o E16(4) \o E16(0)),
     R(tNumber, Cell(0, 0, 0) \o F75), R(tRK, Cell(0, 1, 0) \o <<22, 0, 0, 0>>),
     R(tBoolErr, Cell(0, 2, 0) \o <<1, 0>>), R(tBoolErr, Cell(0, 3, 0) \o <<7, 1>>),
     R(tMulRk, E16(1) \o E16(0) \o E16(1) \o <<0, 0, 240, 63>> \o E16(0) \o <<31, 0, 0, 0>> \o E16(1)),
     Formula(1, 2, 0, F75), Formula(1, 3, 0, <<1, 0, 1, 0, 0, 0, 255, 255>>),
     Formula(2, 0, 0, <<0, 0, 0, 0, 0, 0, 255, 255>>), R(tString, E16(2) \o <<0, 120, 121>>),
     Formula(2, 1, 0, <<0, 0, 0, 0, 0, 0, 255, 255>>), R(1212, Zeros(10)), R(tString, E16(3) \o <<1, 97, 0>>), R(tContinue, <<0, 98, 99>>),
     Formula(2, 2, 0, <<2, 0, 42, 0, 0, 0, 255, 255>>),
     R(tLabelSst, Cell(3, 0, 0) \o E32(0)), R(tLabelSst, Cell(3, 1, 2) \o E32(2)), R(tLabelSst, Cell(3, 2, 0) \o E32(1)),
     R(tMerge, E16(2) \o E16(3) \o E16(4) \o E16(2) \o E16(3) \o E16(0) \o E16(1) \o E16(0) \o E16(0)),
     R(tHLink, E16(5) \o E16(5) \o E16(0) \o E16(1) \o Zeros(16) \o E32(2) \o E32(155)
               \o E32(3) \o <<104, 0, 105, 0, 0, 0>> \o E32(2) \o <<95, 0, 0, 0>>
               \o UrlMoniker \o E32(8) \o <<120, 0, 58, 0, 121, 0, 0, 0>> \o E32(2) \o <<122, 0, 0, 0>>),
     Bof(32), R(tNumber, Cell(0, 0, 0) \o F75), Eof,
     Eof >>
SheetB == << Bof(16), R(tDimensions, E32(0) \o E32(2) \o E16(0) \o E16(3) \o E16(0)),
             R(tLabelSst, Cell(0, 0, 0) \o E32(3)), R(tNumber, Cell(1, 1, 0) \o F75),
             R(tHLink, E16(1) \o E16(1) \o E16(2) \o E16(2) \o Zeros(16) \o E32(2) \o E32(1)
                       \o FileMoniker \o E16(0) \o E32(3) \o <<97, 98, 0>> \o Zeros(24) \o E32(10) \o E32(4) \o E16(3) \o <<97, 0, 233, 0>>),
             Eof >>
Original == <<Globals(0, 0), SheetA, SheetB>>

Init == /\ parts = Original /\ raw = <<>> /\ nf = 0 /\ nrec = 0 /\ nbyte = 0 /\ local = TRUE /\ phase = "records"
        /\ pos = 0 /\ subs = <<>> /\ nest = 0 /\ g = NoGlobals /\ k = 0 /\ open = "" /\ sheets = <<>> /\ aim = <<>>

Rest == UNCHANGED <<raw, nbyte, phase, pos, subs, nest, g, k, open, sheets>>
Types == ({SheetA[y].t : y \in 1..Len(SheetA)} \cup {tCodePage, tDate1904, tFormat, tXF, tBoundSheet, tSST}) \ {tBOF, tEOF}
\* ---- damage to records; local: inside sheet A only, and not its ends ----
\* (what, where and which in three steps)
AimR == /\ phase = "records" /\ nf < MaxFaults /\ nrec < MaxRec
        /\ CASE Len(aim) = 0 -> \E x \in Kinds : aim' = <<x>>
             [] Len(aim) = 1 -> \E p \in {q \in 1..3 : Len(parts[q]) > 2} : aim' = <<aim[1], p>>
             [] Len(aim) = 2 -> \E i \in 1..Len(parts[aim[2]]) :
                  LET r == parts[aim[2]][i] IN
                  /\ IF aim[1] = "shrink" THEN r.d # <<>>
                     ELSE IF aim[1] = "stranger" THEN i > 1
                     ELSE IF aim[1] = "retype" THEN r.t \notin {tBOF, tEOF}
                     ELSE IF aim[1] = "swap" THEN i < Len(parts[aim[2]]) /\ i > 1 /\ parts[aim[2]][i + 1].t # tEOF
                     ELSE TRUE
                  /\ aim' = <<aim[1], aim[2], i>>
             [] OTHER -> FALSE
        /\ UNCHANGED <<parts, nf, nrec, local>> /\ Rest
Hit(p, i, new) == /\ parts' = [parts EXCEPT ![p] = SubSeq(@, 1, i - 1) \o new \o SubSeq(@, i + 1, Len(@))]
                  /\ local' = (local /\ p = 2 /\ parts[p][i].t \notin {tBOF, tEOF})
Harm == /\ phase = "records" /\ Len(aim) = 3
        /\ LET p == aim[2]
               i == aim[3]
               r == parts[p][i] IN
           CASE aim[1] = "shrink" -> \E n \in 0..Len(r.d) - 1 : Hit(p, i, <<[r EXCEPT !.d = SubSeq(@, 1, n)]>>)
             [] aim[1] = "drop" -> Hit(p, i, <<>>)
             [] aim[1] = "double" -> Hit(p, i, <<r, r>>)
             [] aim[1] = "stranger" -> \E n \in Strangers : Hit(p, i, <<R(153, Zeros(n)), r>>)
             [] aim[1] = "retype" -> \E q \in Types \ {r.t} : Hit(p, i, <<[r EXCEPT !.t = q]>>)
             [] aim[1] = "swap" -> /\ parts' = [parts EXCEPT ![p] = [@ EXCEPT ![i] = parts[p][i + 1], ![i + 1] = r]]
                                   /\ local' = (local /\ p = 2 /\ {r.t, parts[p][i + 1].t} \cap {tBOF, tEOF} = {})
        /\ nf' = nf + 1 /\ nrec' = nrec + 1 /\ aim' = <<>>
        /\ Rest
\* the positions of the sheets are those of the records as they are now
Where(ps) == LET a == Len(EncodeAll(ps[1]))
                 at(n) == IF n = 1 THEN a ELSE a + Len(EncodeAll(ps[2]))
                 nth(i) == Cardinality({j \in 1..i : ps[1][j].t = tBoundSheet /\ Len(ps[1][j].d) >= 4})
                 isA(d) == \E n \in 7..Len(d) : d[n] = 65
             IN [i \in 1..Len(ps[1]) |-> IF ps[1][i].t = tBoundSheet /\ Len(ps[1][i].d) >= 4
                                         THEN [ps[1][i] EXCEPT !.d = E32(at(IF isA(@) THEN 1 ELSE 2)) \o SubSeq(@, 5, Len(@))] ELSE ps[1][i]]
Lay == /\ phase = "records" /\ aim = <<>>
       /\ raw' = EncodeAll(Where(parts)) \o EncodeAll(parts[2]) \o EncodeAll(parts[3])
       /\ phase' = "bytes"
       /\ UNCHANGED <<parts, nf, nrec, nbyte, local, pos, subs, nest, g, k, open, sheets, aim>>

\* ---- damage to bytes ----
AimB == /\ phase = "bytes" /\ raw # <<>> /\ nf < MaxFaults /\ nbyte < MaxByte
        /\ CASE Len(aim) = 0 -> \E x \in {"set", "cut", "lose", "gain"} : aim' = <<x>>
             [] Len(aim) = 1 -> \E n \in 0..(Len(raw) - 1) \div 32 : aim' = <<aim[1], n>>
             [] Len(aim) = 2 -> \E n \in 1..32 : 32 * aim[2] + n <= Len(raw) /\ aim' = <<aim[1], aim[2], 32 * aim[2] + n>>
             [] OTHER -> FALSE
        /\ UNCHANGED <<parts, raw, nf, nrec, nbyte, local, phase, pos, subs, nest, g, k, open, sheets>>
Values(x) == Marks \cup {(x + 1) % 256, (x + 255) % 256, (x + 32) % 256, (x + 128) % 256}
Corrupt == /\ phase = "bytes" /\ Len(aim) = 3
           /\ LET p == aim[3] IN
              CASE aim[1] = "set" -> \E v \in Values(raw[p]) \ {raw[p]} : raw' = [raw EXCEPT ![p] = v]
                [] aim[1] = "cut" -> raw' = SubSeq(raw, 1, p - 1)
                [] aim[1] = "lose" -> raw' = SubSeq(raw, 1, p - 1) \o SubSeq(raw, p + 1, Len(raw))
                [] aim[1] = "gain" -> \E v \in {0, 1} : raw' = SubSeq(raw, 1, p) \o <<v>> \o SubSeq(raw, p + 1, Len(raw))
           /\ nf' = nf + 1 /\ nbyte' = nbyte + 1 /\ local' = FALSE /\ aim' = <<>>
           /\ UNCHANGED <<parts, nrec, phase, pos, subs, nest, g, k, open, sheets>>

\* ---- reading ----
Begin == /\ phase = "bytes" /\ aim = <<>> /\ phase' = "scan"
         /\ UNCHANGED <<parts, raw, nf, nrec, nbyte, local, pos, subs, nest, g, k, open, sheets, aim>>
Stop(o) == phase' = "done" /\ open' = o /\ UNCHANGED <<pos, subs, nest>>
Scan == /\ phase = "scan"
        /\ LET left == Len(raw) - pos IN
           IF left < 4 THEN phase' = "globals" /\ UNCHANGED <<pos, subs, nest, open>>
           ELSE LET t == U16(raw, pos)
                    n == U16(raw, pos + 2) IN
             IF left - 4 < n THEN Stop("err")
             ELSE IF t # tBOF /\ subs = <<>> THEN Stop("err")
             ELSE IF t = tFilePass THEN Stop("any")
             ELSE LET r == R(t, Part(raw, pos + 4, n))
                      fresh == t = tBOF /\ nest = 0
                      s2 == IF fresh THEN Append(subs, [p |-> pos, rs |-> <<>>]) ELSE subs
                  IN /\ subs' = [s2 EXCEPT ![Len(s2)].rs = Append(@, r)]
                     /\ nest' = IF t = tBOF THEN nest + 1 ELSE IF t = tEOF /\ nest > 0 THEN nest - 1 ELSE nest
                     /\ pos' = pos + 4 + n
                     /\ UNCHANGED <<phase, open>>
        /\ UNCHANGED <<parts, raw, nf, nrec, nbyte, local, g, k, sheets, aim>>
Read == /\ phase = "globals"
        /\ IF subs = <<>> THEN phase' = "done" /\ open' = "any" /\ UNCHANGED <<g, k>>
           ELSE IF \E i \in 1..Len(subs) : \E j \in 1..Len(subs[i].rs) : subs[i].rs[j].t = tBOF /\ ~BofOk(subs[i].rs[j].d)
           THEN phase' = "done" /\ open' = "err" /\ UNCHANGED <<g, k>>
           ELSE IF g.err THEN phase' = "done" /\ open' = "err" /\ UNCHANGED <<g, k>>
           ELSE IF k = Len(subs[1].rs) THEN phase' = "sheets" /\ open' = "ok" /\ UNCHANGED <<g, k>>
           ELSE k' = k + 1 /\ g' = Global(g, subs[1].rs, k + 1) /\ UNCHANGED <<phase, open>>
        /\ UNCHANGED <<parts, raw, nf, nrec, nbyte, local, pos, subs, nest, sheets, aim>>
Had(s) == LET at == {i \in 1..Len(subs) : subs[i].p = s.p} IN
          IF at = {} THEN [err |-> TRUE, eff |-> <<>>, rows |-> 0, cols |-> 0] ELSE Sheet(g, subs[CHOOSE i \in at : TRUE].rs)
GetAll == /\ phase = "sheets"
          /\ IF Len(sheets) = Len(g.shs) THEN phase' = "done" /\ UNCHANGED sheets
             ELSE LET n == g.shs[Len(sheets) + 1]
                      first == CHOOSE i \in 1..Len(g.shs) : g.shs[i].n = n.n /\ \A j \in 1..i - 1 : g.shs[j].n # n.n
                  IN sheets' = Append(sheets, [n |-> n.n, h |-> n.h, got |-> Had(g.shs[first])]) /\ UNCHANGED phase
          /\ UNCHANGED <<parts, raw, nf, nrec, nbyte, local, pos, subs, nest, g, k, open, aim>>
Emit == /\ phase = "done" /\ phase' = "emitted"
        /\ PrintT(ToJson([raw |-> raw, open |-> open, sheets |-> IF open = "ok" THEN sheets ELSE <<>>]))
        /\ UNCHANGED <<parts, raw, nf, nrec, nbyte, local, pos, subs, nest, g, k, open, sheets, aim>>
\* (with this the reader never sticks: any other state has a successor)
Rested == phase = "emitted" /\ UNCHANGED vars
Next == Rested \/ AimR \/ Harm \/ Lay \/ AimB \/ Corrupt \/ Begin \/ Scan \/ Read \/ GetAll \/ Emit
Spec == Init /\ [][Next]_vars

\* what the undamaged book says
NotEmpty == [xfs |-> <<0, 164, 0>>, strs |-> <<<<97, 98>>, <<233>>, <<99, 100, 101, 102>>, <<103>>, <<>>>>, shs |-> <<>>, err |-> FALSE]
\* damage that is all inside one sheet is that sheet's: the file opens, the other is whole
Contained == phase = "done" /\ local => /\ open = "ok" /\ Len(sheets) = 2
                                        /\ sheets[2].got = Sheet(NotEmpty, SheetB)
                                        /\ (nf = 0 => sheets[1].got = Sheet(NotEmpty, SheetA))
\* a record cut short: a refusal, or the other records say what they said
Loss == phase = "done" /\ local /\ nf = 1 /\ ~sheets[1].got.err =>
          LET was == Sheet(NotEmpty, SheetA).eff
              now == sheets[1].got.eff
              own == {was[i] : i \in 1..Len(was)} \ {now[i] : i \in 1..Len(now)}
          IN Cardinality(own) <= 2 \/ sheets[1].got.rows # 6 \/ sheets[1].got.cols # 4
=============================================================================
