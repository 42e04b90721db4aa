def run(k):
    q = k.tier == "quick"
    c = k.tlc("XlsCells")
    k.drive("xlscells", k.sample(c, 8000 if q else 200000), minimum=1000)
    c = k.tlc("XlsCells", cfg="XlsCells.nums.cfg")
    k.drive("xlscells", k.sample(c, 15000 if q else 300000), minimum=1000)
    c = k.tlc("XlsCells", cfg="XlsCells.sim.cfg", simulate=14000 if q else 400000, depth=300)
    k.drive("xlscells", c, minimum=1000)
    k.assumptions += ["an empty formula result or empty shared text is not stored over an earlier value of the same cell",
                      "numerals of more than eleven characters under General are not claimed (C16)"]
