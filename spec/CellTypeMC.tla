---------------------------- MODULE CellTypeMC ----------------------------
EXTENDS CellType
IpsC == {<<0>>, <<1>>, <<7>>, <<6,0>>, <<6,1>>, <<9,9,9,9>>, <<4,4,1,9,7>>, <<1,0,0,0,0,0,0>>, <<1,2,3,4,5,6,7,8,9,0,1,2>>}
FpsC == {<<>>, <<5>>, <<9,9,9>>, <<0,0,1>>, <<2,5>>}
=============================================================================
