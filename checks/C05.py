import os


def run(k):
    c = k.tlc("SliceReader")
    k.drive("slicereader", c, minimum=1000)
    q = k.tier == "quick"
    c = k.tlc("SliceReader", cfg="SliceReader.sim.cfg", simulate=1600 if q else 60000, depth=16)
    k.drive("slicereader", c, minimum=1000)
    n = 60 if k.tier == "quick" else 1500
    tr = os.path.join(k.tmp, "sr.ndjson")
    k.drive("slicereader_trace", None, trace=tr, n=n)
    k.validate("SliceReaderTrace", tr, ntraces=n)
    k.assumptions += ["piece lengths up to 4 exhaustively; real sector sizes by recorded random traces",
                      "buffers passed to Read are not retained by the reader"]
