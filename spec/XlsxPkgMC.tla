---------------------------- MODULE XlsxPkgMC ----------------------------
EXTENDS XlsxPkg
Books1 == {<<"xl", "workbook.xml">>}
Books3 == {<<"workbook.xml">>, <<"xl", "workbook.xml">>, <<"a", "b", "wb.xml">>}
Paths3 == {<<"s.xml">>, <<"xl", "worksheets", "sheet1.xml">>, <<"a", "b", "sheet1.xml">>}
Paths6 == Paths3 \cup {<<"xl", "sheet1.xml">>, <<"xl", "worksheets", "sheet2.xml">>, <<"a", "Sheet.XML">>, <<"xl", "worksheets", "deep", "sheet1.xml">>,
                       <<"xl", "worksheets", "wb.xml">>, <<"b", "sheet10.xml">>}
Path1 == {<<"xl", "worksheets", "sheet1.xml">>}
Aux2 == {<<"xl", "sharedStrings.xml">>, <<"xl", "styles.xml">>}
Aux6 == {<<"xl", "sharedStrings.xml">>, <<"xl", "styles.xml">>, <<"t.xml">>, <<"a", "b", "c", "st.xml">>, <<"a", "styles.xml">>, <<"xl", "worksheets", "styles.xml">>}
Date1 == {[y |-> 2001, m |-> 2, d |-> 3]}
Date4 == {[y |-> 2001, m |-> 2, d |-> 3], [y |-> 1904, m |-> 12, d |-> 31], [y |-> 2100, m |-> 3, d |-> 1], [y |-> 1999, m |-> 12, d |-> 31]}
=============================================================================
