---------------------------- MODULE CustomFmtMC ----------------------------
EXTENDS CustomFmt
V(neg, ip, fp) == [neg |-> neg, ip |-> ip, fp |-> fp]
ValuesC == {V(n, w[1], w[2]) : n \in BOOLEAN, w \in {
  <<<<1>>, <<>>>>, <<<<7>>, <<>>>>, <<<<1,0>>, <<>>>>, <<<<1,2,3>>, <<>>>>, <<<<1,0,0,0>>, <<>>>>, <<<<1,2,3,4,5,6,7>>, <<>>>>,
  <<<<9,8,7,6,5,4,3,2,1>>, <<>>>>, <<<<0>>, <<5,1>>>>, <<<<0>>, <<2,5>>>>, <<<<0>>, <<0,5,6>>>>, <<<<0>>, <<0,0,1,2,3>>>>, <<<<1,2,3,4>>, <<5,6,7,8>>>>,
  <<<<9,9,9>>, <<9,6>>>>, <<<<9,9,9,9,9,9>>, <<9,9,9,9,6>>>>, <<<<1,2>>, <<1>>>>, <<<<3>>, <<1,4,1,5,9>>>>, <<<<4,2>>, <<1,0,0,1>>>>, <<<<5,0,0,0,7>>, <<0,3>>>> }}
  \cup {V(FALSE, <<0>>, <<>>)}
T(y, m, d, ms) == [y |-> y, m |-> m, d |-> d, ms |-> ms, serial |-> Day(y, m, d) - Epoch(1900)]
At(h, i, s, ms) == (h * 3600000) + (i * 60000) + (s * 1000) + ms
TimesC == {T(2021, 3, 4, At(15, 6, 7, 0)), T(1999, 12, 31, At(23, 59, 59, 0)), T(1900, 3, 1, At(0, 0, 0, 0)), T(1904, 2, 29, At(12, 0, 5, 900)),
           T(1935, 11, 20, At(11, 45, 0, 120)), T(2000, 1, 1, At(1, 2, 3, 4)), T(2024, 10, 9, At(9, 8, 40, 0)), T(1950, 5, 17, At(0, 30, 59, 250))}
=============================================================================
