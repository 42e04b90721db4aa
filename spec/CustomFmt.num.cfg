CONSTANTS
 MODE = "numexh"
 Ints = {"z1","h1","z2","z3","z5","g1","g0","gh","h2","hz","z32","e3","no"}
 Fixs = {0,1,2}
 Opts = {0,1,2}
 Pcts = {FALSE,TRUE}
 Exps = {0,1,2}
 Lits = {"none","usd","words"}
 Values <- ValuesC
 Times <- TimesC
 MaxToks = 0
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
