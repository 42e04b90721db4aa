def run(k):
    q = k.tier == "quick"
    race = k.build_race()
    for cfg in ("", "2"):
        c = k.tlc("Lifecycle", cfg=f"Lifecycle.{k.tier}{cfg}.cfg")
        k.drive("lifecycle", k.sample(c, 20000 if q else 300000), minimum=500)
    c = k.tlc("Lifecycle", cfg="Lifecycle.sim.cfg", simulate=5000 if q else 60000, depth=140)
    k.drive("lifecycle", c, n=1, minimum=500)
    k.drive("lifecyclepar", k.sample(c, 600 if q else 20000), race=race, minimum=200)
    k.assumptions += ["a spreadsheet reader may deliver one blank record after the last of the used area",
                      "one source is used by one goroutine at a time, and so is one collection; different ones are not synchronised"]
