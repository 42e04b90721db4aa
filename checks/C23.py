def run(k):
    q = k.tier == "quick"
    env = {"VERIF_BIN_grater": k.build_cmd("cmd/grater")}
    c = k.tlc("Extract", cfg="Extract.print.cfg", simulate=2000 if q else 30000, depth=400)
    k.drive("extract", c, env=env, minimum=300)
    k.assumptions += ["a spreadsheet reader may deliver one blank record after the last of the used area, and leave out blank columns after the last value"]
