def run(k):
    q = k.tier == "quick"
    # one section: every shape of the placeholders
    c = k.tlc("CustomFmtMC", cfg="CustomFmt.num.cfg")
    k.drive("customfmt", c, minimum=4000)
    # every short sequence of date and time fields
    c = k.tlc("CustomFmtMC", cfg="CustomFmt.date.cfg" if q else "CustomFmt.datebig.cfg")
    k.drive("customfmt", c, minimum=20000)
    # random codes of one to four sections
    c = k.tlc("CustomFmtMC", cfg="CustomFmt.sim.cfg", simulate=3000 if q else 60000, depth=40)
    k.drive("customfmt", c, minimum=5000)
    # the same in workbooks
    k.drive("codebook", k.sample(c, 6000 if q else 60000), minimum=100)
    k.assumptions += ["values rounding to zero from below are not claimed",
                      "alignment and fill characters (_x, * ) show nothing; conditions and mmmmm are not claimed",
                      "minutes are claimed next to an hour before or a second after, not where both readings are possible"]
