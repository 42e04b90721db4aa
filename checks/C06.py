def cases(k):
    q = k.tier == "quick"
    k.tlc("Cfb", cfg=f"Cfb.design.{k.tier}.cfg", cases=False)
    k.tlc("Cfb", cfg="Cfb.designsim.cfg", simulate=24 if q else 4000, depth=70, cases=False)
    yield "exh", k.tlc("Cfb", cfg="Cfb.v4exh.cfg")
    yield "v3", k.tlc("Cfb", cfg="Cfb.v3.cfg", simulate=160 if q else 4000, depth=400)
    yield "v4", k.tlc("Cfb", cfg="Cfb.v4.cfg", simulate=80 if q else 1600, depth=400)
    yield "mid", k.tlc("Cfb", cfg="Cfb.mid.cfg", simulate=80 if q else 1600, depth=400)
    yield "big", k.tlc("Cfb", cfg="Cfb.big.cfg", simulate=28 if q else 300, depth=700)


def run(k):
    q = k.tier == "quick"
    for name, c in cases(k):
        k.drive("cfb", c, minimum=5)
    # folders, and streams of the same name in them
    c = k.tlc("CfbTree", cfg="CfbTree.exh.cfg")
    k.drive("cfbtree", k.sample(c, 8000 if q else 100000), minimum=500)
    c = k.tlc("CfbTree", cfg="CfbTree.sim.cfg", simulate=400 if q else 20000, depth=60)
    k.drive("cfbtree", c, minimum=100)
    k.assumptions += ["stream names are unique in a folder", "which of several inner streams of one name is meant is not claimed", "streams up to 15 MB (two DIFAT sectors)"]
