def run(k):
    q = k.tier == "quick"
    c = k.tlc("Marks", cfg=f"Marks.reg{k.tier}.cfg")
    k.drive("marks", k.sample(c, 15000 if q else 400000), minimum=1000)
    c = k.tlc("Marks", cfg="Marks.regsim.cfg", simulate=12000 if q else 300000, depth=300)
    k.drive("marks", c, minimum=1000)
    # many small regions
    c = k.tlc("Marks", cfg="Marks.regmany.cfg", simulate=400 if q else 12000, depth=320)
    k.drive("marks", c, minimum=150)
    k.assumptions += ["regions are disjoint (overlapping ones are invalid in both formats)"]
