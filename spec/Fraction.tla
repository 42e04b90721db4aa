---------------------------- MODULE Fraction ----------------------------
(* C22.  Rendering a value as a whole number and a fraction of limited
   denominator.

   Exact part: every (sign, whole, numerator, denominator) is a value whose
   rendering is determined: the whole number and the fraction in lowest terms,
   the sign once in front.  For the others (MODE "near") the walk stops at the
   two fractions of at most so many digits that the value lies between, with
   none in between them (Nearby): one of the two is shown, a fraction of 0/1 or
   1/1 as the whole number it makes.  A Stern-Brocot walk computes the reduced fraction a second way
   (Walk), and the invariant Agree compares it with division by the gcd.     *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Digits, Wholes, MaxDen, MODE

VARIABLES neg, w, n, d, dig, phase, lo, hi, step
vars == <<neg, w, n, d, dig, phase, lo, hi, step>>

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
MinI(a, b) == IF a < b THEN a ELSE b

Init == /\ neg \in BOOLEAN /\ w \in Wholes /\ dig \in Digits
        /\ d \in IF MODE = "near" THEN {IF dig = 4 THEN 30011 ELSE 9973} ELSE 1..MinI(MaxDen, Pow10(dig) - 1)
        /\ (dig = 4 /\ MODE # "near") => d % 29 = 3 \/ d > 9990
        /\ IF MODE = "near" THEN n \in {i \in 1..(d - 1) : i < 60 \/ i > d - 60 \/ i % MaxDen = 0 \/ d \in {i * 2 - 1, i * 2 + 1}}
           ELSE IF MODE = "exact" THEN n \in 0..(d - 1)
           ELSE n \in ((IF dig = 4 THEN {} ELSE {d - 1, d \div 2, 1}) \cup IF MODE = "many" THEN {(d * k) \div 89 : k \in {3, 16, 27, 34, 47, 55, 62, 71, 83}} ELSE {}) \ {d}
        /\ phase = "walk" /\ lo = <<0, 1>> /\ hi = <<1, 1>> /\ step = 0

\* one step of the search for n/d between lo and hi
Med == <<lo[1] + hi[1], lo[2] + hi[2]>>
Fine == MODE = "near" => Med[2] < Pow10(dig)
Walk == /\ phase = "walk" /\ n # 0 /\ Fine
        /\ step' = step + 1
        /\ LET c == n * Med[2] - Med[1] * d
           IN IF c = 0 THEN phase' = "found" /\ UNCHANGED <<lo, hi>>
              ELSE /\ UNCHANGED phase
                   /\ IF c < 0 THEN hi' = Med /\ UNCHANGED lo ELSE lo' = Med /\ UNCHANGED hi
        /\ UNCHANGED <<neg, w, n, d, dig>>
Done == /\ phase = "walk" /\ n = 0 /\ phase' = "found"
        /\ UNCHANGED <<neg, w, n, d, dig, lo, hi, step>>

Red == <<n \div Gcd(n, d), d \div Gcd(n, d)>>
\* the two ends are in lowest terms, one after the other among the fractions of so
\* many digits, and the value lies strictly between
Nearby == phase = "between" => /\ hi[1] * lo[2] - lo[1] * hi[2] = 1
                               /\ lo[2] < Pow10(dig) /\ hi[2] < Pow10(dig) /\ lo[2] + hi[2] >= Pow10(dig)
                               /\ lo[1] * d < n * lo[2] /\ n * hi[2] < hi[1] * d
Agree == phase = "found" /\ n # 0 => Med = Red
Bounded == phase = "found" /\ n # 0 => Red[2] < Pow10(dig) /\ Red[1] < Red[2]

Text == LET sg == IF neg /\ (w # 0 \/ n # 0) THEN "-" ELSE ""
            fr == ToString(Red[1]) \o "/" \o ToString(Red[2])
        IN IF n = 0 THEN sg \o ToString(w)
           ELSE IF w = 0 THEN sg \o fr ELSE sg \o ToString(w) \o " " \o fr

Emit == /\ phase = "found" /\ phase' = "emitted"
        /\ PrintT(ToJson([neg |-> neg, w |-> w, n |-> n, d |-> d, dig |-> dig, s |-> Text,
                          rn |-> IF n = 0 THEN 0 ELSE Red[1], rd |-> IF n = 0 THEN 1 ELSE Red[2]]))
        /\ UNCHANGED <<neg, w, n, d, dig, lo, hi, step>>

Between == /\ phase = "walk" /\ n # 0 /\ ~Fine /\ phase' = "between"
           /\ UNCHANGED <<neg, w, n, d, dig, lo, hi, step>>
\* whole, numerator, denominator and text of the value w + f
Whole(f) == IF f[1] = f[2] THEN <<w + 1, 0, 1>> ELSE <<w, f[1], f[2]>>
Shown(f) == LET t == Whole(f) IN
            [w |-> t[1], n |-> t[2], d |-> t[3],
             s |-> LET sg == IF neg /\ (t[1] # 0 \/ t[2] # 0) THEN "-" ELSE ""
                       fr == ToString(t[2]) \o "/" \o ToString(t[3])
                   IN IF t[2] = 0 THEN sg \o ToString(t[1]) ELSE IF t[1] = 0 THEN sg \o fr ELSE sg \o ToString(t[1]) \o " " \o fr]
EmitNear == /\ phase = "between" /\ phase' = "emitted"
            /\ PrintT(ToJson([neg |-> neg, w |-> w, n |-> n, d |-> d, dig |-> dig, near |-> <<Shown(lo), Shown(hi)>>]))
            /\ UNCHANGED <<neg, w, n, d, dig, lo, hi, step>>

Next == Walk \/ Done \/ Emit \/ Between \/ EmitNear
Spec == Init /\ [][Next]_vars
=============================================================================
