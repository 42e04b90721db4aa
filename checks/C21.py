def run(k):
    q = k.tier == "quick"
    for cfg in ("quick", "live") if q else ("quick", "thorough", "live", "livethorough"):
        k.tlc("Pipeline", cfg=f"Pipeline.{cfg}.cfg", cases=False)
    plain, race = k.build_cmd("cmd/grate2tsv"), k.build_cmd("cmd/grate2tsv", race=True)
    env = {"VERIF_BIN_grate2tsv": plain + ":" + race}
    c = k.tlc("Extract", cfg="Extract.cells.cfg")
    k.drive("extract", k.sample(c, 1500 if q else 8800), env={"VERIF_BIN_grate2tsv": plain}, minimum=500)
    c = k.tlc("Extract", cfg="Extract.sim.cfg" , simulate=2000 if q else 8000, depth=400)
    k.drive("extract", c, env=env, minimum=300)
    k.assumptions += ["a spreadsheet reader may deliver one blank record after the last of the used area",
                      "the number of workers follows the processors the process may use; interleavings of the real processes are those that occur, also under the race detector"]
