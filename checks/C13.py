def run(k):
    q = k.tier == "quick"
    k.tlc("Cipher", cfg=f"Cipher.design.{k.tier}.cfg", cases=False)
    k.tlc("Cipher", cfg="Cipher.wdesign.cfg", cases=False)
    c = k.tlc("Cipher", cfg="Cipher.sim.cfg", simulate=5000 if q else 100000, depth=80)
    k.drive("cipher", c, minimum=500)
    # streams whose end is missing
    k.tlc("Cipher", cfg="Cipher.cutdesign.cfg", cases=False)
    c = k.tlc("Cipher", cfg="Cipher.cutsim.cfg", simulate=4000 if q else 80000, depth=80)
    k.drive("cipher", c, minimum=500)
    c = k.tlc("Cipher", cfg="Cipher.wsim.cfg", simulate=12000 if q else 200000, depth=80)
    k.drive("cipher", c, minimum=500)
    # streams with thousands of blocks
    c = k.tlc("Cipher", cfg="Cipher.big.cfg", simulate=60 if q else 1000, depth=400)
    k.drive("cipher", c, minimum=30)
    c = k.tlc("Cipher", cfg="Cipher.wbig.cfg", simulate=16 if q else 200, depth=60)
    k.drive("cipher", c, minimum=8)
    c = k.tlc("Cipher", cfg="Cipher.faults.cfg")
    # every fault with many salts and positions
    with open(c) as fh:
        lines = fh.readlines()
    with open(c, "w") as fh:
        fh.writelines(lines * (40 if q else 2000))
    k.drive("cipher", c, minimum=100)
    k.assumptions += ["MD5 and RC4 are Go's own, in the encryptor and in the code under test",
                      "the key stream itself is symbolic in the specification"]
