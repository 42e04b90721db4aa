def run(k):
    q = k.tier == "quick"
    c = k.tlc("Grid")
    k.drive("grid", c, minimum=5000)
    c = k.tlc("Grid", cfg="Grid.sim.cfg", simulate=2400 if q else 80000, depth=60)
    k.drive("grid", c, minimum=1000)
    c = k.tlc("Grid", cfg="Grid.wide.cfg", simulate=240 if q else 8000, depth=90)
    k.drive("grid", c, minimum=150)
    k.assumptions += ["the grid may hold one more, blank, row than was asked for",
                      "the text result of a formula in a cell that already has a hyperlink is not claimed",
                      "Resize is only used to enlarge"]
