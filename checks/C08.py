def run(k):
    q = k.tier == "quick"
    c = k.tlc("XlsBook")
    k.drive("xlsbook", k.sample(c, 12000 if q else 200000), minimum=1000)
    c = k.tlc("XlsBook", cfg="XlsBook.sim.cfg", simulate=16000 if q else 300000, depth=150)
    k.drive("xlsbook", c, minimum=1000)
    c = k.tlc("XlsBook", cfg="XlsBook.fault.cfg", simulate=4000 if q else 40000, depth=120)
    k.drive("xlsbook", c, minimum=500)
    k.assumptions += ["sheet names are unique; begin and end records are balanced inside every part"]
