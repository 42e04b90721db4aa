CONSTANTS
 MODE = "dateexh"
 Ints = {}
 Fixs = {0,1,2}
 Opts = {0,1,2}
 Pcts = {FALSE,TRUE}
 Exps = {0,1,2}
 Lits = {"none","usd","words"}
 Values <- ValuesC
 Times <- TimesC
 MaxToks = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
