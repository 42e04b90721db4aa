---------------------------- MODULE CellType ----------------------------
(* C04.  What a cell holds after a value is written under a number format.

   A value has a kind; a format has a type of its own or none ("any": General,
   unknown identifiers, no format).  Store is the conversion; TLC checks on it
   that the stored type is the kind of what is stored (KindOK), that a value is
   never destroyed (Faithful) and that storing what was stored again changes
   nothing (Idempotent).  Every (value, format) pair is replayed, and so is every
   direct conversion of a value to a type, truth values included (To).       *)
EXTENDS CellStore

CONSTANTS MODE, Ips, Fps, MaxIp, MaxFp, FmtPick

VARIABLES v, want, phase
vars == <<v, want, phase>>

\* what was stored, seen as a value again
AsVal(s) == CASE s.type = "string" -> Val(IF s.txt \in OtherText \cup DOMAIN Truth \cup {"*"} THEN "word" ELSE "text", s.txt, s.n)
              [] OTHER -> Val(s.type, s.txt, s.n)

Pairs == {f \in Fmts : ClaimedPair(v, FmtType(f))}
KindOK == phase = "built" => \A f \in Pairs : LET s == Store(v, FmtType(f)) IN
            /\ s.type = "string" <=> (Own(v) = "string" /\ ~(IsNumeric(v) /\ FmtType(f) \in {"integer", "float"}))
                                     \/ (FmtType(f) = "string" /\ v.kind # "blank")
            /\ (FmtType(f) \in {"integer", "float"} /\ v.kind \notin {"word", "blank", "date"} /\ Fits(v.n)) => s.type = FmtType(f)
Faithful == phase = "built" => \A f \in Pairs : LET s == Store(v, FmtType(f)) IN
            /\ v.kind = "word" => s.txt = v.txt
            /\ v.kind = "blank" <=> s.type = "blank"
            /\ FmtType(f) # "integer" => s.n = v.n
Idempotent == phase = "built" => \A f \in Pairs : LET s == Store(v, FmtType(f)) IN
            (s.txt # "*" /\ ~(s.type = "boolean")) => Store(AsVal(s), FmtType(f)) = s

\* the conversion of a value to a type; the truth of a number is that it is not zero,
\* that of a text is given by the list of words
Targets == {"blank", "integer", "float", "string", "boolean", "date"}
Claims(t) == IF t = "blank" THEN TRUE ELSE ClaimedPair(v, t)
Bool(b) == [type |-> "boolean", n |-> IF b THEN Num(FALSE, <<1>>, <<>>) ELSE NoNum, txt |-> IF b THEN "TRUE" ELSE "FALSE"]
To(t) == IF t = "blank" THEN Store(v, "any")
         ELSE IF t # "boolean" THEN Store(v, t)
         ELSE IF v.kind \in {"integer", "float"} THEN Bool(~ZeroV(v.n))
         ELSE IF v.kind \in {"text", "word"} /\ v.txt \in DOMAIN Truth THEN Bool(Truth[v.txt])
         ELSE Store(v, "any")
\* nothing becomes a truth value unless asked to, and truth values convert back
TruthOK == phase = "built" => \A t \in Targets : Claims(t) =>
             (To(t).type = "boolean" => t = "boolean" \/ v.kind = "boolean")

Emit == /\ phase = "built" /\ phase' = "emitted"
        /\ \A f \in (IF FmtPick = 0 THEN Pairs ELSE Pairs) :
             PrintT(ToJson([kind |-> v.kind, txt |-> v.txt, num |-> Plain(v.n), f |-> f,
                            code |-> IF f \in DOMAIN Custom THEN Custom[f].code ELSE "",
                            to |-> "", type |-> Store(v, FmtType(f)).type, stxt |-> Store(v, FmtType(f)).txt,
                            snum |-> Plain(Store(v, FmtType(f)).n)]))
        /\ \A t \in {y \in Targets : Claims(y)} :
             PrintT(ToJson([kind |-> v.kind, txt |-> v.txt, num |-> Plain(v.n), f |-> 0, code |-> "", to |-> t,
                            type |-> To(t).type, stxt |-> To(t).txt, snum |-> Plain(To(t).n)]))
        /\ UNCHANGED <<v, want>>

\* exhaustive: all kinds of the interesting numbers
PickExh == /\ phase = "build"
           /\ \/ \E x \in Fixed \cup Edges \cup {Val("word", t, NoNum) : t \in DOMAIN Truth \ {"1", "0", "1.0", "0.0"}} : v' = x
              \/ \E n \in BOOLEAN, ip \in Ips, fp \in Fps :
                   /\ ~(n /\ IsZero(ip) /\ IsZero(fp))
                   /\ \E x \in Kinds(Num(n, ip, fp)) : v' = x
           /\ phase' = "built" /\ UNCHANGED want
\* random numbers
Grow == /\ phase = "build"
        /\ \/ Len(v.n.ip) < want[1] /\ \E d \in 0..9 : v' = [v EXCEPT !.n.ip = Append(@, d)]
           \/ Len(v.n.ip) >= want[1] /\ Len(v.n.fp) < want[2] /\ \E d \in 0..9 : v' = [v EXCEPT !.n.fp = Append(@, d)]
        /\ UNCHANGED <<want, phase>>
PickSim == /\ phase = "build" /\ Len(v.n.ip) >= want[1] /\ Len(v.n.fp) >= want[2]
           /\ LET n == Num(v.n.neg, v.n.ip, v.n.fp)
              IN ~(n.neg /\ ZeroV(n)) /\ \E x \in Kinds(n) : v' = x
           /\ phase' = "built" /\ UNCHANGED want

Init == /\ v \in {Val("none", "", [neg |-> b, ip |-> <<>>, fp |-> <<>>]) : b \in BOOLEAN}
        /\ want \in (1..MaxIp) \X (0..MaxFp)
        /\ phase = "build"
Next == (IF MODE = "exh" THEN PickExh ELSE Grow \/ PickSim) \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
