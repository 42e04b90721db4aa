------------------------------ MODULE CfbTwist ------------------------------
(* C07.  Layouts in which the table entries of one FAT sector, taken for those
   of the sector before it, form a chain of the right length as well: a stream
   of n sectors, and another one whose links lie one table sector further on
   and lead back next to the first.  A reader that loses or displaces a sector
   of the table follows the wrong links without ever leaving the file.        *)
EXTENDS Cfb

CONSTANT Ns

Unit(o, k) == [o |-> o, from |-> k, n |-> 1]
Holes(a, n) == [i \in 1..n |-> Unit("hole", a + i - 1)]
\* positions:  0,1 fat   2 directory   3 first of s1   4.. odd ones of s2   then the rest of s1
\*   E+2 the last of s2   E+3.. its even ones
Twisted(n) ==
  LET m   == n - 1
      low == <<Unit("fat", 0), Unit("fat", 1), Unit("dir", 0), Unit("s1", 0)>>
             \o [i \in 1..m |-> Unit("s2", 2 * i - 1)]
             \o [i \in 1..m |-> Unit("s1", i)]
      gap == Holes(0, E + 2 - Len(low))
  IN low \o gap \o <<Unit("s2", 2 * m)>> \o [i \in 1..m |-> Unit("s2", 2 * (i - 1))]

\* the same in the first two table sectors that only the DIFAT sector lists
Far(n) ==
  LET m   == n - 1
      low == <<[o |-> "fat", from |-> 0, n |-> D + 2], Unit("difat", 0), Unit("dir", 0), [o |-> "hole", from |-> 0, n |-> D * E - D - 4], Unit("s1", 0)>>
             \o [i \in 1..m |-> Unit("s2", 2 * i - 1)]
             \o [i \in 1..m |-> Unit("s1", i)]
  IN low \o <<[o |-> "hole", from |-> 0, n |-> (D + 1) * E - Total(low) - 1], Unit("s2", 2 * m)>> \o [i \in 1..m |-> Unit("s2", 2 * (i - 1))]

TwistInit == /\ \E n \in Ns : /\ layout \in {Twisted(n), Far(n)}
                              /\ entries = <<[kind |-> "stream", size |-> n * S], [kind |-> "stream", size |-> (2 * n - 1) * S]>>
             /\ want = 2 /\ phase = "done" /\ grain = 1 /\ mpend = {} /\ mlayout = <<>> /\ pend = {}
TwistSpec == TwistInit /\ [][Next]_vars

\* read with the table displaced by one sector, the first stream leads through the second one
Displaced == phase = "done" =>
  LET n == Count(layout, "s1")
      f == Follow(NoFault, Start(layout, "s1"), n, LAMBDA s : Word(layout, s + E), LAMBDA s : InFile(NoFault, s), <<>>)
  IN f # ERR /\ f # Stored(1)
============================================================================
