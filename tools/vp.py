"""Shared machinery of the checks: build the code under test, run TLC, run drivers, validate traces.

Every check is self-sufficient: it compiles /repo's current working tree (with the ROS stand-ins of
/verif/stubs) into a scratch directory, model-checks the TLA+ specification, takes behaviours of the
specification (and seeded random operation sequences) as scripts, replays them into the compiled
code, and lets TLC decide whether every recorded trace is a behaviour of the specification.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
EVIDENCE = os.environ.get("VP_EVIDENCE", os.path.join(VERIF, "evidence"))
NCPU = max(2, min(8, os.cpu_count() or 2))
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"


def tla_classpath():
    cands = glob.glob("/opt/veriftools/tla/*.jar")
    return ":".join(sorted(cands))


class Violation(Exception):
    def __init__(self, what, files=None):
        super().__init__(what)
        self.what = what
        self.files = files or {}


class Inconclusive(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vp_%s_" % pid)
        self.rng = random.Random("%s/%s" % (seed, pid))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = 0
        self.sample_list = []
        self.notes = []
        self.assumptions = []
        self.known_hits = []
        self.specs = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ build
    def build(self, name, driver, pkgs, sources=None, flags=(), exclude=(), libs=(), defines=(), std="c++14"):
        """Compile repo packages + one driver with the ROS stand-ins. Returns the executable."""
        gen = self.path("gen", "x")[:-2]
        if not os.path.exists(self.path("gen", ".done")):
            subprocess.run([sys.executable, os.path.join(VERIF, "stubs", "gen_repo.py"), REPO, gen], check=True,
                           stdout=subprocess.DEVNULL)
            open(self.path("gen", ".done"), "w").close()
        inc = ["-I" + os.path.join(VERIF, "stubs", "include"), "-I" + gen, "-I" + os.path.join(VERIF, "drivers"),
               "-isystem", "/usr/include/eigen3"]
        for p in ("avoidance", "local_planner", "safe_landing_planner", "global_planner"):
            inc += ["-I%s/%s/include" % (REPO, p)]
        for p in pkgs:
            inc += ["-I%s/%s/src/nodes" % (REPO, p), "-I%s/%s/src" % (REPO, p)]
        srcs = []
        if sources is not None:
            srcs += [os.path.join(REPO, s) for s in sources]
        else:
            for p in pkgs:
                for f in sorted(glob.glob("%s/%s/src/**/*.cpp" % (REPO, p), recursive=True)):
                    b = os.path.basename(f)
                    if b.endswith("_main.cpp") or b == "mock_data_node.cpp" or b in exclude:
                        continue
                    srcs.append(f)
        srcs.append(os.path.join(VERIF, "drivers", driver))
        base = ["g++", "-std=" + std, "-O1", "-w", "-g0", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-D_GLIBCXX_ASSERTIONS",
                "-Dmain=vp_repo_main"] + ["-D" + d for d in defines] + list(flags) + inc
        outs = []

        def one(src):
            o = self.path("obj_" + name, re.sub(r"\W", "_", src) + ".o")
            cmd = list(base)
            if not src.startswith(REPO + "/"):
                cmd.remove("-Dmain=vp_repo_main")
            r = subprocess.run(cmd + ["-c", src, "-o", o], capture_output=True, text=True)
            if r.returncode:
                raise Inconclusive("compile failed: %s\n%s" % (src, r.stderr[-3000:]))
            return o

        with cf.ThreadPoolExecutor(NCPU) as ex:
            outs = list(ex.map(one, srcs))
        exe = self.path("bin", name)
        r = subprocess.run(["g++", "-o", exe] + list(flags) + outs +
                           ["-lboost_system", "-lboost_thread", "-lyaml-cpp", "-lpthread"] + list(libs),
                           capture_output=True, text=True)
        if r.returncode:
            raise Inconclusive("link failed:\n" + r.stderr[-3000:])
        self.log("built", name, "(%d sources)" % len(srcs))
        return exe

    # ------------------------------------------------------------------ TLC
    def _tlc(self, module, cfg, env=None, workers=1, extra=(), timeout=600, heap="2g"):
        meta = tempfile.mkdtemp(prefix="tlc_", dir=self.dir)
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-XX:TieredStopAtLevel=%d" % (1 if workers == 1 and not self.thorough else 4),
               "-DTLA-Library=" + os.path.join(VERIF, "spec"), "-cp", tla_classpath(), "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=os.path.join(VERIF, "spec"), env=e,
                               timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise Inconclusive("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    @staticmethod
    def _counts(out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if not m:
            return 0, 0
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    def model_check(self, module, cfg=None, workers=NCPU, timeout=800, heap="8g", env=None):
        """Check the specification itself (its invariants / action properties). A failure here is a defect of
        the specification, not of the code: it makes the check inconclusive, never a violation."""
        cfg = cfg or module + ".cfg"
        rc, out = self._tlc(module + ".tla", cfg, workers=workers, timeout=timeout, heap=heap, env=env)
        if rc != 0 or "No error has been found" not in out:
            raise Inconclusive("specification %s (%s) does not check:\n%s" % (module, cfg, out[-4000:]))
        g, d = self._counts(out)
        self.states += d
        self.transitions += g
        self.specs.append({"spec": module, "cfg": cfg, "states": d, "transitions": g})
        self.log("model checked", module, cfg, "distinct=%d generated=%d" % (d, g))
        return out

    def behaviours(self, module, cfg=None, timeout=600, workers=1, extra=(), heap="4g", count=True):
        """Behaviours of the specification: every line TLC prints with PrintT(ToJson(hist))."""
        cfg = cfg or module + ".cfg"
        rc, out = self._tlc(module + ".tla", cfg, workers=workers, timeout=timeout, extra=extra, heap=heap)
        if "Error:" in out and "No error has been found" not in out:
            raise Inconclusive("generation with %s failed:\n%s" % (module, out[-3000:]))
        res = []
        for line in out.splitlines():
            if line.startswith('"['):
                try:
                    res.append(json.loads(json.loads(line)))
                except ValueError:
                    pass
        g, d = self._counts(out)
        if count:
            self.states += d
            self.transitions += g
            self.specs.append({"spec": module, "cfg": cfg, "states": d, "transitions": g, "behaviours": len(res)})
        # drop behaviours that are prefixes of others
        keys = sorted(json.dumps(b, sort_keys=True)[:-1] for b in res)
        keep = []
        for i, k in enumerate(keys):
            if i + 1 < len(keys) and (keys[i + 1] == k or keys[i + 1].startswith(k + ",")):
                continue
            keep.append(json.loads(k + "]"))
        self.log("behaviours from", module, "raw=%d kept=%d states=%d" % (len(res), len(keep), d))
        return keep

    # ------------------------------------------------------------------ drive + validate
    def drive(self, exe, scripts, name="run", timeout=300, shards=NCPU, env=None):
        """Run the driver on scripts (each a list of op lines). Returns list of (script, trace lines)."""
        shards = max(1, min(shards, len(scripts)))
        parts = [[] for _ in range(shards)]
        for i, s in enumerate(scripts):
            parts[i % shards].append((i, s))
        e = dict(os.environ)
        e.update(env or {})
        res = [None] * len(scripts)

        def one(k):
            sp = self.path(name, "script%d.txt" % k)
            tp = self.path(name, "trace%d.ndjson" % k)
            with open(sp, "w") as f:
                for _, s in parts[k]:
                    f.write("TRACE\n")
                    for line in s:
                        f.write(line + "\n")
            wd = self.path(name, "cwd%d" % k, "x")[:-2]
            try:
                r = subprocess.run([exe, sp, tp], capture_output=True, text=True, timeout=timeout, cwd=wd, env=e,
                                   errors="replace")
                rc, err = r.returncode, r.stderr[-1500:]
            except subprocess.TimeoutExpired:
                rc, err = "timeout after %ss" % timeout, ""
            cur = -1
            lines = open(tp, errors="replace").read().splitlines() if os.path.exists(tp) else []
            for ln in lines:
                if ln.startswith('{"op":"TRACE"'):
                    cur += 1
                    res[parts[k][cur][0]] = []
                elif cur >= 0:
                    res[parts[k][cur][0]].append(ln)
            if rc != 0:
                i, s = parts[k][max(cur, 0)]
                raise Violation("the code under test did not survive this history (driver exit %s)\n%s" % (rc, err),
                                {"script.txt": "\n".join(s), "trace.ndjson": "\n".join(res[i] or [])})

        with cf.ThreadPoolExecutor(shards) as ex:
            for fut in [ex.submit(one, k) for k in range(shards)]:
                fut.result()
        self.samples += sum(len(r or []) for r in res)
        k = self.rng.randrange(len(scripts))
        self.sample_list.append({"script": scripts[k][:12], "trace": [t[:300] for t in (res[k] or [])[:4]]})
        return list(zip(scripts, res))

    def validate(self, module, pairs, cfg=None, chunk=None, timeout=600, heap="2g", env=None):
        """TLC decides whether each trace is a behaviour of the trace specification `module`."""
        cfg = cfg or module + ".cfg"
        pairs = [p for p in pairs if p[1]]
        if not pairs:
            raise Inconclusive("no traces to validate")
        nch = max(1, min(NCPU, len(pairs))) if chunk is None else max(1, (len(pairs) + chunk - 1) // chunk)
        groups = [pairs[i::nch] for i in range(nch)]

        def one(k):
            tp = self.path("val_" + module, "t%d.ndjson" % k)
            index = []
            with open(tp, "w") as f:
                for gi, (s, tr) in enumerate(groups[k]):
                    f.write('{"op":"New"}\n')
                    index.append((gi, -1))
                    for li, ln in enumerate(tr):
                        f.write(ln + "\n")
                        index.append((gi, li))
            en = {"TRACE": tp}
            en.update(env or {})
            rc, out = self._tlc(module + ".tla", cfg, env=en, timeout=timeout, heap=heap)
            g, d = self._counts(out)
            if rc == 0 and "No error has been found" in out and "Postcondition" not in out:
                if d < len(index) + 1:
                    raise Inconclusive("vacuous validation %s: %d states for %d events" % (module, d, len(index)))
                return len(groups[k]), None
            if "TraceAccepted" not in out and "ostcondition" not in out:
                raise Inconclusive("TLC failed on a trace (%s):\n%s" % (module, out[-4000:]))
            m = re.search(r"depth of the complete state graph search is (\d+)", out)
            depth = int(m.group(1)) if m else 1
            pos = min(depth - 1, len(index) - 1)       # index (0-based) of the first event not accepted
            gi, li = index[pos]
            s, tr = groups[k][gi]
            mism = [(int(m.group(1)), re.sub(r"\s+", " ", m.group(0))[:500]) for m in
                    re.finditer(r'<<\s*"MISMATCH",\s*(\d+),.*?(?=\n<<|\n[A-Z]|\Z)', out, re.S)]
            mism = [t for n, t in mism if n == pos + 1] or [t for _, t in mism[-3:]]
            ev = tr[li] if li >= 0 else "New"
            what = "%s rejects event %d: %s\n  %s" % (module, li + 1, ev[:600], "\n  ".join(mism[:6]))
            return len(groups[k]), Violation(what, {"script.txt": "\n".join(s),
                                                    "trace.ndjson": "\n".join(tr[:li + 1])})

        viols = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for n, v in ex.map(one, range(nch)):
                self.traces += n
                if v:
                    viols.append(v)
        if viols:
            raise viols[0]
        self.log("validated %d traces against %s" % (len(pairs), module))

    # ------------------------------------------------------------------ outcome
    def finish(self, level, ok, violations=()):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "trace_events": self.samples, "samples": self.sample_list[:3], "specs": self.specs,
               "notes": self.notes, "known_findings": self.known_hits}
        ev = {"property": self.pid, "tier": self.tier, "seed": int(self.seed), "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "assumptions": self.assumptions,
              "violations": len(list(violations))}
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def cleanup(self):
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)
        else:
            print("kept", self.dir)


def write_replay(pid, v):
    d = os.path.join(EVIDENCE, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s_%s.txt" % (pid, hashlib.sha1(v.what.encode()).hexdigest()[:10]))
    with open(p, "w") as f:
        f.write("property %s\n%s\n" % (pid, v.what))
        for n, c in v.files.items():
            f.write("\n==== %s\n%s\n" % (n, c))
    return p
