def run(k):
    q = k.tier == "quick"
    # every single fault
    c = k.tlc("DamageX", cfg="DamageX.quick.cfg")
    k.drive("damagex", c, minimum=2500)
    # several faults
    c = k.tlc("DamageX", cfg="DamageX.sim.cfg", simulate=1500 if q else 25000, depth=300)
    k.drive("damagex", c, minimum=1500)
    k.assumptions += ["the undamaged package is one of fixed content that uses every element the library reads",
                      "the content of a package with several style or string parts is not claimed"]
