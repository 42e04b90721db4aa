"""Common machinery: build the replay driver from /repo, run TLC, replay the
behaviours it emits into the real code, validate recorded traces, and write
evidence.  See DESIGN.md."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib, random

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
GO = "/opt/veriftools/go1.27.3/bin"


class CheckError(Exception):
    pass


def go_env():
    e = dict(os.environ)
    e.update(HOME=os.environ.get("HOME") or "/root", GOTOOLCHAIN="local", GOPROXY="off",
             GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="0")
    if os.path.isdir(GO):
        e["PATH"] = GO + ":" + e.get("PATH", "")
    return e


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-", dir=os.environ.get("TMPDIR") or "/tmp")
        self.states = self.transitions = self.validated = 0
        self.samples, self.assumptions, self.models, self.drives = [], [], [], []
        self.violations = []
        self.known = []
        self.rand = random.Random(self.seed)
        self.drv = None
        self.extra = {}

    # ---- building -------------------------------------------------------
    def build(self):
        d = os.path.join(self.tmp, "harness")
        shutil.copytree(os.path.join(VERIF, "harness"), d)
        self.drv = os.path.join(self.tmp, "drv")
        p = subprocess.run(["go", "build", "-o", self.drv, "."], cwd=d, env=go_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise CheckError("the harness does not build against /repo:\n" + p.stdout[-4000:])

    def build_race(self):
        """The same driver under the race detector."""
        d = os.path.join(self.tmp, "harness")
        out = os.path.join(self.tmp, "drv-race")
        e = go_env()
        e["CGO_ENABLED"] = "1"
        p = subprocess.run(["go", "build", "-race", "-o", out, "."], cwd=d, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise CheckError("the harness does not build with -race:\n" + p.stdout[-4000:])
        return out

    def build_cmd(self, pkg, race=False):
        out = os.path.join(self.tmp, os.path.basename(pkg)) + ("-race" if race else "")
        e = go_env()
        e["GOFLAGS"] = "-mod=readonly"
        e["CGO_ENABLED"] = "1" if race else "0"
        p = subprocess.run(["go", "build"] + (["-race"] if race else []) + ["-o", out, "./" + pkg], cwd=REPO, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise CheckError(f"{pkg} does not build:\n" + p.stdout[-4000:])
        return out

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, simulate=None, depth=None, workers=8, timeout=None,
            emit=None, expect_trace=False, cases=True):
        """Run TLC on spec/<module>.tla.  Returns the path of the case file
        (one JSON value per line, deduplicated, in a seeded order)."""
        if cfg is None:
            cfg = f"{module}.{self.tier}.cfg"
            if not os.path.exists(os.path.join(VERIF, "spec", cfg)):
                cfg = f"{module}.cfg"
        n = len(self.models)
        meta = os.path.join(self.tmp, f"tlc{n}")
        os.makedirs(meta)
        # TLC writes next to the module: run from a private copy
        sd = os.path.join(self.tmp, "spec")
        if not os.path.isdir(sd):
            shutil.copytree(os.path.join(VERIF, "spec"), sd)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx10g", "-Xss16m", "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg]
        if simulate:
            cmd += ["-simulate", f"num={max(1, simulate // workers)}", "-seed", str(self.seed)]
            if depth:
                cmd += ["-depth", str(depth)]
        cmd.append(module + ".tla")
        out = os.path.join(self.tmp, f"{module}-{n}.out")
        t = time.time()
        with open(out, "w") as fh:
            try:
                p = subprocess.run(cmd, cwd=sd, env=e, stdout=fh, stderr=subprocess.STDOUT,
                                   timeout=timeout or (800 if self.tier == "quick" else 7200))
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise CheckError(f"TLC timed out on {module}")
        gen = dist = 0
        cases_f = os.path.join(self.tmp, f"{module}-{n}.cases")
        seen, lines, log = set(), [], []
        with open(out, errors="replace") as fh:
            for l in fh:
                if l.startswith('"{') or l.startswith('"['):
                    try:
                        s = json.loads(l)
                        json.loads(s)
                    except ValueError:
                        raise CheckError(f"unreadable case from {module}: {l[:200]!r}")
                    h = hashlib.blake2b(s.encode(), digest_size=12).digest()
                    if h not in seen:
                        seen.add(h)
                        lines.append(s)
                else:
                    if len(log) < 5000:
                        log.append(l)
                    m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", l)
                    if m:
                        gen, dist = (int(x.replace(",", "")) for x in m.groups())
                    m = re.match(r"The number of states generated: ([\d,]+)", l)
                    if m:
                        gen = dist = int(m.group(1).replace(",", ""))
        text = "".join(log)
        if expect_trace:
            return rc, text, gen, dist
        bad = rc != 0
        if bad:
            raise CheckError(f"TLC failed on {module} ({cfg}), exit {rc}:\n" + text[-3500:])
        if cases and not lines:
            raise CheckError(f"{module} emitted no behaviours")
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "cfg": cfg, "mode": "simulate" if simulate else "exhaustive",
                            "states": dist, "transitions": gen, "behaviours": len(lines),
                            "seconds": round(time.time() - t, 1)})
        lines.sort()
        with open(cases_f, "w") as fh:
            for s in lines:
                fh.write(s + "\n")
        os.unlink(out)
        return cases_f

    def sample(self, path, n, keep=None):
        """Reduce a case file to at most n lines chosen by VERIF_SEED."""
        with open(path) as fh:
            lines = fh.readlines()
        if len(lines) > n:
            lines = random.Random(self.seed).sample(lines, n)
            with open(path, "w") as fh:
                fh.writelines(lines)
        return path

    # ---- replay ---------------------------------------------------------
    def drive(self, driver, cases, args=(), env=None, trace=None, n=0, timeout=None, minimum=1, race=None):
        d = os.path.join(self.tmp, f"dir{len(self.drives)}")
        os.makedirs(d)
        cmd = [race or self.drv, driver, "-tier", self.tier, "-seed", str(self.seed), "-dir", d, "-n", str(n)]
        if cases:
            cmd += ["-cases", cases]
        if trace:
            cmd += ["-trace", trace]
        cmd += list(args)
        t = time.time()
        e = dict(os.environ)
        e.update(env or {})
        if race:
            e["GORACE"] = "atexit_sleep_ms=0 halt_on_error=0 exitcode=0 log_path=" + os.path.join(d, "race")
        try:
            p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               timeout=timeout or (800 if self.tier == "quick" else 7200))
        except subprocess.TimeoutExpired:
            raise CheckError(f"driver {driver} timed out")
        s = None
        for l in p.stdout.splitlines()[::-1]:
            if l.startswith('{"cases"'):
                s = json.loads(l)
                break
        if s is None:
            err = p.stderr
            if "DRIVER-ERROR" not in err and ("github.com/pbnjay/grate" in err) and \
                    re.search(r"^(panic:|fatal error:|runtime: )", err, re.M):
                # the code under test brought the process down (a panic in
                # another goroutine, a deadlock, concurrent map access, ...)
                s = {"cases": 1, "steps": 1, "nontrivial": 0, "nfail": 1, "extra": {},
                     "failures": [{"case": -1, "step": -1, "what": "process crashed",
                                   "got": err[-1500:]}]}
            else:
                raise CheckError(f"driver {driver} gave no summary (exit {p.returncode}):\n{err[-3000:]}")
        if race:
            self.races(d, s)
        shutil.rmtree(d, ignore_errors=True)
        s["driver"] = driver
        s["seconds"] = round(time.time() - t, 1)
        for f in s["failures"] or []:
            self.fail(driver, f)
        if not s["nfail"] and s["nontrivial"] < minimum:
            raise CheckError(f"driver {driver} exercised only {s['nontrivial']} non-trivial behaviours")
        self.drives.append({k: s[k] for k in ("driver", "cases", "steps", "nontrivial", "nfail", "extra", "seconds")})
        if not trace:
            self.validated += s["cases"]
        if cases and len(self.samples) < 6:
            with open(cases) as fh:
                ls = fh.readlines()
            for l in (ls[len(ls) // 3], ls[2 * len(ls) // 3]) if ls else ():
                v = l.strip()
                self.samples.append(json.loads(v) if len(v) < 3000 else v[:3000])
        return s

    def races(self, d, s):
        """Reports of the race detector that involve the code under test."""
        for f in sorted(os.listdir(d)):
            if not f.startswith("race."):
                continue
            with open(os.path.join(d, f), errors="replace") as fh:
                reports = re.split(r"^={18}$", fh.read(), flags=re.M)
            for r in reports:
                if "WARNING: DATA RACE" not in r:
                    continue
                # the stacks of the two accesses, before where the goroutines came from
                acc = r.split("Goroutine ")[0]
                if "github.com/pbnjay/grate" not in acc:
                    raise CheckError("a race in the harness itself:\n" + r[:3000])
                s["nfail"] += 1
                if len(s["failures"] or []) < 20:
                    s["failures"] = (s["failures"] or []) + [
                        {"case": -1, "step": -1, "what": "data race", "got": acc[:1800]}]

    def validate(self, module, trace, cfg=None, ntraces=1, env=None):
        """Check recorded real traces (NDJSON) against a trace specification.
        The specification deadlocks on the first event it does not allow."""
        ev = {"TRACE": trace}
        ev.update(env or {})
        t = time.time()
        rc, text, gen, dist = self.tlc(module, cfg=cfg or f"{module}.cfg", env=ev, workers=1, expect_trace=True)
        self.models.append({"module": module, "mode": "trace validation", "states": dist,
                            "transitions": gen, "seconds": round(time.time() - t, 1)})
        self.states += dist
        self.transitions += gen
        with open(trace) as fh:
            lines = fh.readlines()
        if len(self.samples) < 8:
            self.samples.append({"recorded": [json.loads(l) for l in lines[:6]]})
        if rc == 0:
            self.validated += ntraces
            return True
        if "Deadlock reached" in text:
            idx = None
            for m in re.finditer(r"/\\ i = (\d+)", text):
                idx = int(m.group(1))
            ctx = [l.strip() for l in lines[max(0, (idx or 1) - 12):(idx or 1)]]
            self.fail(module, {"case": idx, "step": idx, "what": "recorded real trace rejected by the specification",
                               "got": ctx[-1] if ctx else None, "data": ctx})
            return False
        raise CheckError(f"trace validation {module} broke (exit {rc}):\n{text[-3500:]}")

    # ---- verdict --------------------------------------------------------
    def fail(self, where, f):
        for k in known_findings():
            if k["property"] == self.pid and k.get("match") and \
                    k["match"] in json.dumps(f, sort_keys=True):
                if k not in self.known:
                    self.known.append(k)
                return
        self.violations.append(dict(f, where=where))

    def finish(self):
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated,
               "samples": self.samples, "models": self.models, "replays": self.drives}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        if self.violations:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", f"{self.pid}-{self.tier}-{self.seed}.json")
            with open(path, "w") as fh:
                json.dump({"property": self.pid, "violations": self.violations}, fh, indent=1)
            for v in self.violations[:5]:
                print(f"  {v['where']}: {v['what']}: want {json.dumps(v.get('want'))[:300]} got {json.dumps(v.get('got'))[:300]}"
                      f"\n     case {json.dumps(v.get('data'))[:600]}")
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        print(f"{self.pid} {self.tier} ok: {self.states} states, {self.transitions} transitions, "
              f"{self.validated} behaviours on the real code, {time.time()-self.t0:.1f}s")
        return 0

    def close(self):
        if os.environ.get("VERIF_KEEP"):
            print("kept", self.tmp)
        else:
            shutil.rmtree(self.tmp, ignore_errors=True)


_kf = None


def known_findings():
    global _kf
    if _kf is None:
        with open(os.path.join(VERIF, "known_findings.json")) as fh:
            _kf = json.load(fh)["findings"]
    return _kf
