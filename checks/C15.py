def run(k):
    q = k.tier == "quick"
    for cfg in ("paths", "styles") if q else ("paths", "paths3", "stylesthorough"):
        c = k.tlc("XlsxPkgMC", cfg=f"XlsxPkg.{cfg}.cfg")
        k.drive("xlsxpkg", k.sample(c, 5000 if q else 150000), minimum=500)
    c = k.tlc("XlsxPkgMC", cfg="XlsxPkg.sim.cfg", simulate=8000 if q else 300000, depth=120)
    k.drive("xlsxpkg", c, minimum=1000)
    k.assumptions += ["part names are plain ASCII without escapes, each part has one relationship",
                      "cell styles state their number format; inheritance of an absent one is not claimed"]
