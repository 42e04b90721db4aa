import os


def run(k):
    q = k.tier == "quick"
    c = k.tlc("Dispatch")
    k.sample(c, 1500 if q else 30000)
    tr = os.path.join(k.tmp, "d1.ndjson")
    s = k.drive("dispatch", c, trace=tr, minimum=500)
    k.validate("DispatchTrace", tr, ntraces=s["cases"])
    c = k.tlc("Dispatch", cfg="Dispatch.sim.cfg", simulate=2000 if q else 30000, depth=300)
    tr = os.path.join(k.tmp, "d2.ndjson")
    s = k.drive("dispatch", c, trace=tr, minimum=500)
    k.validate("DispatchTrace", tr, ntraces=s["cases"])
    k.assumptions += ["formats of equal priority may be consulted in either order",
                      "opens are sequential within a process"]
