---------------------------- MODULE FormatsMC ----------------------------
EXTENDS Formats
IpsC == {<<0>>, <<1>>, <<5>>, <<9>>, <<1,0>>, <<9,9>>, <<1,0,0>>, <<9,9,9>>, <<1,0,0,0>>, <<9,9,9,9>>,
         <<1,2,3,4,5>>, <<9,9,9,9,9>>, <<1,0,0,0,0,0>>, <<9,9,9,9,9,9>>, <<1,0,0,0,0,0,0>>, <<1,2,3,4,5,6,7>>,
         <<9,9,9,9,9,9,9,9,9>>, <<1,0,0,0,0,0,0,0,0,0>>, <<3,0,0,5,0,0,7,0,0,1>>, <<1,2,3,4,5,6,7,8,9,0,1,2>>}
FpsC == {<<>>, <<1>>, <<4,9>>, <<5>>, <<5,1>>, <<9>>, <<9,9>>, <<9,9,4>>, <<9,9,5,1>>, <<9,9,9>>, <<0,1>>, <<0,0,4>>,
         <<0,0,6>>, <<2,5>>, <<1,2,5,1>>, <<0,4,9,9>>, <<0,0,0,1,2>>, <<6,7>>,
         <<0,0,5>>, <<1,2,5>>, <<6,7,5>>, <<9,9,5>>, <<0,0,4,5>>, <<4,9,5>>}
=============================================================================
