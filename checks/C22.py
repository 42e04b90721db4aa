def run(k):
    c = k.tlc("Fraction")
    k.drive("fraction", c, minimum=5000)
    for cfg in ("wide", "wide3"):
        c = k.tlc("Fraction", cfg=f"Fraction.{cfg}.cfg")
        k.drive("fraction", c, minimum=300)
    # values between: shown as one of the two fractions next to them
    c = k.tlc("Fraction", cfg="Fraction.near.cfg" if k.tier == "quick" else "Fraction.nearw.cfg")
    k.drive("fraction", c, minimum=10000)
    k.assumptions += ["values that are not exactly representable: of whole numbers of 9973rds and 30011ths, and seeded neighbours of every exact one for the number of digits"]
