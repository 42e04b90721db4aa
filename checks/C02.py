def run(k):
    q = k.tier == "quick"
    c = k.tlc("Cursor", cfg=f"Cursor.{k.tier}.cfg")
    k.drive("cursor", k.sample(c, 30000 if q else 400000), minimum=3000)
    for cfg in ("scan", "scan2"):
        k.drive("cursor", k.tlc("Cursor", cfg=f"Cursor.{cfg}.cfg"), minimum=500)
    c = k.tlc("Cursor", cfg="Cursor.sim.cfg", simulate=5000 if q else 400000, depth=240)
    k.drive("cursor", c, minimum=2000)
    k.assumptions += ["a spreadsheet reader may deliver one blank record after the last of the used area (two for an empty sheet)",
                      "reading before the first and after the last record, and scanning fewer columns than there are, is not claimed"]
