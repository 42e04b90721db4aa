def run(k):
    q = k.tier == "quick"
    c = k.tlc("Handles", cfg=f"Handles.{k.tier}.cfg")
    k.drive("handles", k.sample(c, 100000), minimum=100)
    c = k.tlc("Handles", cfg="Handles.sim.cfg", simulate=800 if q else 20000, depth=1000)
    k.drive("handles", c, minimum=300)
    k.assumptions += ["handles are counted as the system reports them for this process, with garbage collection off",
                      "whether a format accepts a damaged file is not claimed here, only that nothing is left open if it does not"]
