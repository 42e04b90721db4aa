def run(k):
    q = k.tier == "quick"
    c = k.tlc("Marks", cfg=f"Marks.link{k.tier}.cfg")
    k.drive("marks", k.sample(c, 15000 if q else 400000), minimum=1000)
    c = k.tlc("Marks", cfg="Marks.linksim.cfg", simulate=12000 if q else 300000, depth=300)
    k.drive("marks", c, minimum=1000)
    k.assumptions += ["XLS links start inside the sheet's declared used area; links and regions are disjoint or identical"]
