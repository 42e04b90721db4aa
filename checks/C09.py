def run(k):
    q = k.tier == "quick"
    c = k.tlc("Sst")
    k.drive("sst", k.sample(c, 15000 if q else 400000), minimum=1000)
    c = k.tlc("Sst", cfg="Sst.fexh.cfg")
    k.drive("sst", c, minimum=300)
    c = k.tlc("Sst", cfg="Sst.sim.cfg", simulate=16000 if q else 400000, depth=400)
    k.drive("sst", c, minimum=1000)
    c = k.tlc("Sst", cfg="Sst.fsim.cfg", simulate=12000 if q else 200000, depth=100)
    k.drive("sst", c, minimum=500)
    # many formatting runs, long phonetic data, long texts
    c = k.tlc("Sst", cfg="Sst.rsim.cfg", simulate=2400 if q else 30000, depth=500)
    k.drive("sst", c, minimum=200)
    k.assumptions += ["a string's header is never divided (the format forbids it)"]
