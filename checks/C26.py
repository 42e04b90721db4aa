def run(k):
    q = k.tier == "quick"
    # every pair of a fixed set of cells
    c = k.tlc("Compare", cfg="Compare.exh.cfg")
    k.drive("compare", c, minimum=10000)
    # numbers and close neighbours of them
    c = k.tlc("Compare", cfg="Compare.sim.cfg", simulate=40000 if q else 600000, depth=30)
    k.drive("compare", c, minimum=10000 if q else 100000)
    k.assumptions += ["numbers of more than 15 digits are compared among 64-bit integers and the texts that write one only",
                      "truth values against texts are only required to compare the same way from both sides"]
