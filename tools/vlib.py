"""Machinery shared by all checks: build, run the real code, validate traces with TLC."""
import json, os, re, resource, subprocess, sys, time, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(2, min(8, os.cpu_count() or 2))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
PROFILES = ("dev", "release")


class ToolError(Exception):
    pass


def cargo_env():
    env = dict(os.environ)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
               CARGO_TARGET_DIR=TARGET, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    env.pop("RUSTFLAGS", None)
    return env


def build(bins):
    """Builds the needed harness programs in both profiles from /repo's working tree."""
    def one(profile):
        cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(ROOT, "harness", "Cargo.toml"),
               "--profile", profile]
        for b in bins:
            cmd += ["--bin", b]
        # separate target directories: the two builds do not wait for each other's lock
        env = dict(cargo_env(), CARGO_TARGET_DIR=os.path.join(TARGET, profile))
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("build failed:\n" + p.stdout[-6000:])
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(one, PROFILES))


def binpath(bin_, profile):
    return os.path.join(TARGET, profile, "debug" if profile == "dev" else profile, bin_)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (4 << 30, 4 << 30))


def run_harness(bin_, profile, prog, trace, timeout):
    """Runs a program on the real library; returns how it ended."""
    try:
        p = subprocess.run([binpath(bin_, profile), prog, trace], preexec_fn=limits, timeout=timeout,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    except subprocess.TimeoutExpired:
        return "hang"
    err = p.stderr.decode(errors="replace")
    if p.returncode == 101 and "harness:" in err:
        raise ToolError("harness: " + err[-2000:])
    return "ok" if p.returncode == 0 else "crash"


def java_tlc(args, env=None, timeout=None, heap="2g", cwd=None):
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC", "-Xss64m", "-Xmx" + heap, "-XX:TieredStopAtLevel=4",
           "-cp", JARS + ":" + SPEC, "-DTLA-Library=" + SPEC, "tlc2.TLC"] + args
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise ToolError("TLC timed out: " + " ".join(args) + str(x.stdout)[-1500:])
    return p.returncode, p.stdout


STATS = re.compile(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found")


def stats(output):
    m = None
    for m in STATS.finditer(output):
        pass
    return (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)


class Run:
    """One run of one check."""

    def __init__(self, pid):
        self.pid, self.t0 = pid, time.time()
        self.work = os.path.join(ROOT, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(ROOT, "replays", pid)
        shutil.rmtree(self.replays, ignore_errors=True)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.violations, self.cover, self.known_hit = [], [], {}, []
        self.exhaustive = []

    # ---------------------------------------------------------------- models
    def model(self, module, cfg=None, timeout=600, heap="4g", workers="auto", emit=False, consts=None, extra=()):
        """Model checks a specification exhaustively; returns the emitted lines."""
        meta = os.path.join(self.work, "mc-" + module + (cfg or "") + hashlib.md5(repr(consts).encode()).hexdigest()[:6])
        os.makedirs(meta, exist_ok=True)
        cfgfile = os.path.join(SPEC, (cfg or module) + ".cfg")
        if consts:
            txt = open(cfgfile).read()
            for k, v in consts.items():
                txt = re.sub(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=\s*).*$" % k, lambda m: m.group(1) + v, txt)
            cfgfile = os.path.join(meta, module + ".cfg")
            open(cfgfile, "w").write(txt)
        rc, out = java_tlc(["-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta, "-config", cfgfile,
                            *extra, os.path.join(SPEC, module + ".tla")], timeout=timeout, heap=heap, cwd=meta)
        open(meta + ".out", "w").write(out)
        if rc != 0:
            # the specification itself is broken: an error of the check
            raise ToolError("TLC on %s: exit %d\n%s" % (module, rc, out[-3000:]))
        g, d = stats(out)
        self.states += d
        self.transitions += g
        name = (cfg or module) + "".join(" %s=%s" % kv for kv in (consts or {}).items())
        self.cover.setdefault("models", {})[name] = {"generated": g, "distinct": d}
        self.exhaustive.append(name)
        return emitted(out) if emit else []

    # ---------------------------------------------------------------- traces
    def conform(self, suite, bin_, trace_module, sessions, profiles=PROFILES, timeout=300, heap="3g", maxev=4000,
                cost=len, env=None, cfg="Trace"):
        """Runs sessions (lists of events) on the real code in both builds, and
        lets TLC decide whether what was recorded is a behaviour of the spec."""
        d = os.path.join(self.work, suite)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        total = sum(cost(s) for s in sessions)
        nchunks = max(1, min(len(sessions), max(NPROC, -(-total // maxev)))) if total > 400 else 1
        # longest-processing-time distribution of whole sessions over chunks
        load = [[0, i, []] for i in range(nchunks)]
        import heapq
        for s in sorted(sessions, key=cost, reverse=True):
            c = heapq.heappop(load)
            c[0] += cost(s)
            c[2].append(s)
            heapq.heappush(load, c)
        progs = []
        for _, i, ss in sorted(load, key=lambda c: c[1]):
            lines = [json.dumps(e, separators=(",", ":")) for s in ss for e in s]
            p = os.path.join(d, "p%03d.ndjson" % i)
            open(p, "w").write("\n".join(lines) + "\n")
            progs.append((p, lines))

        def execute(job):
            (p, lines), prof = job
            t = os.path.join(d, "t-%s-%s" % (prof, os.path.basename(p)[1:]))
            how = run_harness(bin_, prof, p, t, timeout)
            got = open(t).read().split("\n") if os.path.exists(t) else []
            got, partial = got[:-1], got[-1:]
            if how == "ok" and len(got) != len(lines):
                raise ToolError("harness ended early")
            if how != "ok" and len(got) < len(lines):
                ev = json.loads(lines[len(got)])
                ev["out"] = how
                got.append(json.dumps(ev, separators=(",", ":")))
            open(t, "w").write("\n".join(got) + "\n")
            return t, got, lines

        with ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(execute, [(pl, prof) for pl in progs for prof in profiles]))
        seen, jobs = set(), []
        for t, got, lines in res:
            h = hashlib.sha256("\n".join(got).encode()).digest()
            if h not in seen:
                seen.add(h)
                jobs.append((t, got, lines))

        def validate(job):
            t, got, lines = job
            rc, out = java_tlc(["-workers", "1", "-noGenerateSpecTE", "-metadir", t + ".meta",
                                "-config", os.path.join(SPEC, cfg + ".cfg"), os.path.join(SPEC, trace_module + ".tla")],
                               env=dict(env or {}, TRACE=t), timeout=800, heap=heap, cwd=d)
            open(t + ".out", "w").write(out)
            shutil.rmtree(t + ".meta", ignore_errors=True)
            if rc != 0:
                raise ToolError("TLC on %s: exit %d\n%s" % (t, rc, out[-3000:]))
            return out

        with ThreadPoolExecutor(NPROC) as ex:
            outs = list(ex.map(validate, jobs))
        nev = 0
        for (t, got, lines), out in zip(jobs, outs):
            g, dd = stats(out)
            self.states += dd
            self.transitions += g
            nev += len(got)
            for m in re.finditer(r'<<\s*"MISMATCH",\s*(\d+),\s*(.*?)>>\s*$', out, re.M | re.S):
                self.mismatch(suite, bin_, trace_module, t, got, int(m.group(1)), m.group(2)[:600], env, cfg)
            if "MISMATCH" in out and not self.violations and not self.known_hit:
                raise ToolError("unparsed mismatch in " + t)
        self.traces += sum(1 for j in jobs for ln in j[1] if '"op":"session"' in ln)
        self.events += nev
        c = self.cover.setdefault("suites", {}).setdefault(suite, {"sessions": 0, "events": 0, "ops": {}, "kinds": {}})
        c["sessions"] += len(sessions)
        c["events"] += sum(len(s) for s in sessions)
        c["builds_differ"] = len(jobs) != len(progs)
        for s in sessions:
            k = str(s[0].get("impl", s[0].get("kind", "")))
            c["kinds"][k] = c["kinds"].get(k, 0) + 1
            for e in s:
                o = e["op"] + (":" + e["f"] if e.get("f") else "")
                c["ops"][o] = c["ops"].get(o, 0) + 1
        if sessions and len(self.samples) < 6:
            t, got, _ = jobs[0]
            self.samples.append({"suite": suite, "trace_prefix": [json.loads(x) for x in got[:4]]} if all(len(x) < 1500 for x in got[:4])
                                else {"suite": suite, "trace_prefix": [x[:400] for x in got[:4]]})

    def mismatch(self, suite, bin_, module, t, got, line, want, env=None, cfg="Trace"):
        ev = json.loads(got[line - 1])
        start = line - 1
        while start > 0 and '"op":"session"' not in got[start]:
            start -= 1
        key = self.known(suite, [json.loads(x) for x in got[start:line]])
        if key:
            self.known_hit.append(key)
            return
        os.makedirs(self.replays, exist_ok=True)
        n = len(self.violations)
        path = os.path.join(self.replays, "%s-%d.ndjson" % (suite, n))
        if n < 20:
            with open(path, "w") as f:
                f.write(json.dumps({"replay": "python3 /verif/check.py --replay " + path, "bin": bin_,
                                    "module": module, "env": env, "cfg": cfg, "want": want, "trace": os.path.basename(t)}) + "\n")
                f.write("\n".join(got[start:line]) + "\n")
        self.violations.append((path if n < 20 else None, ev, want))

    def known(self, suite, session):
        import known
        return known.match(self.pid, suite, session)

    # ---------------------------------------------------------------- result
    def finish(self, level="model_checking", assumptions=None):
        wall = time.time() - self.t0
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "samples": self.samples, **self.cover}
        if self.exhaustive:
            cov["models_checked_exhaustively"] = self.exhaustive
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": level, "coverage": cov, "assumptions": assumptions or [], "wall_s": round(wall, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        import known
        for k in known.lines(self.pid, set(self.known_hit)):
            print(k)
        if self.violations:
            for path, e, want in self.violations[:5]:
                print("mismatch: %s\n   specification: %s" % (json.dumps(e)[:700], want[:300]))
            print("%d mismatches" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violations[0][0]))
            return 1
        print("OK property=%s states=%d traces=%d events=%d wall=%.1fs" %
              (self.pid, self.states, self.traces, self.events, wall))
        return 0


def emitted(out):
    """The JSON lines a model printed: PrintT(<<"EMIT", ToJson(..)>>)."""
    res = []
    for m in re.finditer(r'<<"EMIT", "(.*)">>$', out, re.M):
        res.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    return res
