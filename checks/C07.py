from checks import C06


def run(k):
    for name, c in C06.cases(k):
        if name == "exh":
            k.sample(c, 150 if k.tier == "quick" else 2000)
        if name == "big":
            k.sample(c, 3 if k.tier == "quick" else 20)
        k.drive("cfbfault", c, minimum=1)
    c = k.tlc("CfbTwist", cfg="CfbTwist.cfg")
    k.drive("cfbfault", c, minimum=1)
    # directory trees with a wrong link or kind
    q = k.tier == "quick"
    c = k.tlc("CfbTree", cfg="CfbTree.twist.cfg")
    k.drive("cfbtree", k.sample(c, 8000 if q else 100000), minimum=500)
    c = k.tlc("CfbTree", cfg="CfbTree.twistsim.cfg", simulate=400 if q else 20000, depth=60)
    k.drive("cfbtree", c, minimum=100)
    k.assumptions += ["faults that cross-link into another stream's sectors are undetectable and not required to be refused"]
