def run(k):
    q = k.tier == "quick"
    for cfg in ("quick", "strs", "pairs") if q else ("thorough", "strs", "strsthorough", "pairs"):
        c = k.tlc("XlsxCells", cfg=f"XlsxCells.{cfg}.cfg")
        k.drive("xlsxcells", k.sample(c, 8000 if q else 150000), minimum=500)
    c = k.tlc("XlsxCells", cfg="XlsxCells.sim.cfg", simulate=16000 if q else 400000, depth=260)
    k.drive("xlsxcells", c, minimum=1000)
    # rows and cells without references
    c = k.tlc("XlsxRefs", cfg="XlsxRefs.exh.cfg")
    k.drive("xlsxrefs", k.sample(c, 8000 if q else 150000), minimum=500)
    c = k.tlc("XlsxRefs", cfg="XlsxRefs.sim.cfg", simulate=1600 if q else 40000, depth=60)
    k.drive("xlsxrefs", c, minimum=500)
    k.assumptions += ["date-typed (ISO) cells and escaped surrogates are not claimed",
                      "an empty text is observed as a blank cell"]
