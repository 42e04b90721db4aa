def run(k):
    q = k.tier == "quick"
    c = k.tlc("Delim", cfg=f"Delim.{k.tier}.cfg")
    k.drive("delim", c, minimum=1000)
    c = k.tlc("Delim", cfg="Delim.nul.cfg")
    k.drive("delim", c, minimum=1000)
    c = k.tlc("Delim", cfg="Delim.write.cfg")
    k.drive("delim", k.sample(c, 20000 if q else 400000), minimum=500)
    c = k.tlc("Delim", cfg="Delim.sim.cfg", simulate=16000 if q else 400000, depth=30)
    k.drive("delim", c, minimum=1000)
    c = k.tlc("Delim", cfg="Delim.writesim.cfg", simulate=8000 if q else 80000, depth=120)
    k.drive("delim", c, minimum=1000)
    c = k.tlc("Delim", cfg="Delim.count.cfg")
    k.drive("delim", k.sample(c, 3000) if q else c, minimum=1000)
    k.assumptions += ["a lone carriage return at the end of the file or inside quotes is not claimed"]
