def run(k):
    q = k.tier == "quick"
    c = k.tlc("DatesMC", cfg="Dates.cal.cfg")
    k.drive("dates", c, minimum=100000)
    c = k.tlc("DatesMC", cfg="Dates.clock.cfg")
    k.drive("dates", c, minimum=200)
    c = k.tlc("DatesMC", cfg="Dates.inst.cfg", simulate=8000 if q else 400000, depth=30)
    k.drive("dates", c, minimum=1000)
    k.drive("datebook", c, minimum=20)
    k.assumptions += ["serial numbers from 0 to the end of year 9999 in both date systems",
                      "tenths of a second are claimed for whole tenths only"]
