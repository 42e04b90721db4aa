def run(k):
    q = k.tier == "quick"
    c = k.tlc("CellTypeMC", cfg="CellType.exh.cfg")
    k.drive("celltype", c, minimum=20000)
    c = k.tlc("CellTypeMC", cfg="CellType.sim.cfg", simulate=320 if q else 8000, depth=24)
    k.drive("celltype", c, minimum=5000)
    k.assumptions += ["numeric text under a date format is not claimed",
                      "magnitudes below 10^12; integers stored under float formats are compared as floats"]
