def run(k):
    q = k.tier == "quick"
    # every single fault in the records, every single fault in the bytes
    c = k.tlc("Damage", cfg="Damage.quick.cfg")
    k.drive("damage", c, minimum=1000)
    c = k.tlc("Damage", cfg="Damage.bytes.cfg")
    k.drive("damage", c, minimum=4000)
    # records larger than the format allows
    c = k.tlc("Damage", cfg="Damage.large.cfg")
    k.drive("damage", c, minimum=100)
    # several faults
    c = k.tlc("Damage", cfg="Damage.sim.cfg", simulate=12000 if q else 150000, depth=300)
    k.drive("damage", c, minimum=2000)
    if not q:
        c = k.tlc("Damage", cfg="Damage.all.cfg")
        k.drive("damage", c, minimum=10000)
    k.assumptions += ["the undamaged workbook is one of fixed content that uses every kind of record the library reads",
                      "numbers under a format that may convert them are only required to be there"]
