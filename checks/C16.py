def run(k):
    q = k.tier == "quick"
    c = k.tlc("Formats", cfg="Formats.hist.cfg")
    k.drive("formats", k.sample(c, 40000) if q else c, minimum=5000)
    c = k.tlc("Formats", cfg="Formats.histsim.cfg", simulate=640 if q else 80000, depth=24)
    k.drive("formats", c, minimum=500)
    # what every identifier shows, which type it gives and which code it reports
    c = k.tlc("Formats", cfg="Formats.ids.cfg")
    k.drive("formats", c, minimum=200)
    c = k.tlc("FormatsMC", cfg="Formats.exh.cfg")
    k.drive("formats", c, minimum=5000)
    c = k.tlc("Formats", cfg="Formats.sim.cfg", simulate=1200 if q else 60000, depth=30)
    k.drive("formats", c, minimum=5000)
    k.assumptions += ["values rounding to zero from below, and numerals of more than fifteen digits near half way, are not claimed",
                      "custom definitions used as probes: decimals, percent and General codes",
                      "alignment blanks of the codes (_x, * ) are not rendered"]
