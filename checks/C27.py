def run(k):
    q = k.tier == "quick"
    # every single damage
    c = k.tlc("Detect", cfg="Detect.exh.cfg")
    k.drive("detect", c, n=100, minimum=6000)
    # several
    c = k.tlc("Detect", cfg="Detect.sim.cfg", simulate=6000 if q else 60000, depth=30)
    k.drive("detect", c, n=400, minimum=1000)
    k.assumptions += ["text without NUL bytes that was damaged may be read as any text",
                      "what a damaged workbook is read as is decided by C07, C24 and C25"]
