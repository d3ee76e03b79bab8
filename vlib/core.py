"""Common machinery: build the harness from /repo, run TLC, run the harness, report."""
import json, os, re, subprocess, sys, threading, time, shutil, hashlib, random

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
WORK = os.path.join(ROOT, "work")
REPLAY = os.path.join(ROOT, "replay")
EVID = os.path.join(ROOT, "evidence")
VH = os.path.join(ROOT, "target", "debug", "vh")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "1.78.0-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = os.path.join(ROOT, "target")
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["RUST_BACKTRACE"] = "0"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    return e


def build():
    t0 = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet"], cwd=os.path.join(ROOT, "harness"),
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stdout[-4000:])
    return time.time() - t0


def vh(jobs, timeout=600, workers=8):
    """Runs jobs; returns a list of results. A process abort is attributed to the job which caused it."""
    results = [None] * len(jobs)
    todo = list(range(len(jobs)))
    _vh_batch(jobs, todo, results, timeout, workers)
    missing = [i for i in todo if results[i] is None]
    if missing:
        # The process died: run the remaining ones with a single worker each until they are all attributed.
        guard, hangs, t0 = 0, 0, time.time()
        while missing and guard < 50:
            guard += 1
            if time.time() - t0 > 240 and hangs:
                for i in missing:
                    results[i] = {"abort": True, "panic": "not run: the process hung on earlier jobs"}
                break
            t1 = time.time()
            begun = _vh_batch(jobs, missing, results, timeout, 1, stall=100 if any(jobs[i].get("op") == "session" for i in missing) else 40)
            hangs += time.time() - t1 > 39
            left = [i for i in missing if results[i] is None]
            if not left:
                break
            cul = [i for i in left if i in begun]
            for i in cul:
                results[i] = {"abort": True, "panic": "process aborted (e.g. stack overflow or hang)"}
            if not cul:
                raise ToolError("harness died without starting a job")
            missing = [i for i in left if results[i] is None]
        if any(results[i] is None for i in todo):
            raise ToolError("harness kept dying")
    return results


def _vh_batch(jobs, idx, results, timeout, workers, stall=150):
    """Runs jobs in one process, which is ended when it makes no progress for `stall` seconds."""
    e = env()
    e["VH_WORKERS"] = str(workers)
    p = subprocess.Popen([VH], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
    begun = set()
    err = []

    last = [time.time()]

    def reader():
        for line in p.stdout:
            last[0] = time.time()
            line = line.decode("utf-8", "replace").rstrip("\n")
            if line.startswith("B "):
                begun.add(idx[int(line[2:])])
            elif line.startswith("R "):
                _, n, body = line.split(" ", 2)
                results[idx[int(n)]] = json.loads(body)

    def ereader():
        for line in p.stderr:
            err.append(line)
            if len(err) > 50:
                err.pop(0)

    th = [threading.Thread(target=reader), threading.Thread(target=ereader)]
    for t in th:
        t.start()

    def killer():
        try:
            p.kill()
        except OSError:
            pass

    timer = threading.Timer(timeout, killer)
    timer.start()
    try:
        for i in idx:
            p.stdin.write(json.dumps(jobs[i]).encode() + b"\n")
        p.stdin.close()
    except BrokenPipeError:
        pass
    last[0] = max(last[0], time.time())
    while True:
        try:
            p.wait(5)
            break
        except subprocess.TimeoutExpired:
            if time.time() - last[0] > stall:
                killer()
    timer.cancel()
    for t in th:
        t.join()
    if p.returncode == 3:
        raise ToolError("harness rejected a job: " + b"".join(err).decode()[-500:])
    return begun


class TlcResult:
    pass


def tlc(module, cfg=None, consts=None, cfg_text=None, env_vars=None, workers=8, simulate=None, depth=None, seed=None,
        timeout=600, allow_fail=False, extra=(), heap="6g", dfs=False, extra_files=None):
    """Runs TLC on /verif/spec/<module>.tla. Lines printed by the spec as ToJson strings with PrintT are returned."""
    wd = os.path.join(WORK, "tlc", f"{module}-{os.getpid()}-{int(time.time()*1e6)}")
    os.makedirs(wd, exist_ok=True)
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla") or f.endswith(".cfg"):
                shutil.copy(os.path.join(SPEC, f), wd)
        for f, body in (extra_files or {}).items():
            with open(os.path.join(wd, f), "w") as fh:
                fh.write(body)
        if cfg_text is not None:
            cfg = "gen.cfg"
            with open(os.path.join(wd, cfg), "w") as fh:
                fh.write(cfg_text)
        cfg = cfg or module + ".cfg"
        cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-Dtlc2.TLC.ide=none", f"-Djava.io.tmpdir={wd}"]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:/opt/veriftools/tla/CommunityModules.jar",
                "tlc2.TLC", "-config", cfg, "-workers", str(workers), "-metadir", os.path.join(wd, "meta"), "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", f"num={simulate}"]
            if depth:
                cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env_vars or {})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module}")
        out = p.stdout.decode("utf-8", "replace")
        r = TlcResult()
        r.rc = p.returncode
        r.out = out
        r.wall = time.time() - t0
        r.lines = []
        for line in out.splitlines():
            if line.startswith('"{') or line.startswith('"['):
                try:
                    r.lines.append(json.loads(json.loads(line)))
                except ValueError:
                    raise ToolError(f"unparsable TLC output line: {line[:200]}")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        r.states = int(m[-1][1]) if m else 0
        r.transitions = int(m[-1][0]) if m else 0
        if not m:
            m = re.findall(r"(\d+) states checked", out)
            r.transitions = r.states = int(m[-1].replace(",", "")) if m else 0
        if r.rc != 0 and not allow_fail:
            raise ToolError(f"TLC failed on {module} (rc {r.rc}):\n" + "\n".join(
                l for l in out.splitlines() if not l.startswith(('"', 'Parsing', 'Semantic processing')))[-3000:])
        return r
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def clean(v):
    """Drops nulls (JSON-RPC treats absent and null optional fields alike)."""
    if isinstance(v, dict):
        return {k: clean(x) for k, x in v.items() if x is not None}
    if isinstance(v, list):
        return [clean(x) for x in v]
    return v


def h(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, ensure_ascii=False).encode()).hexdigest()[:12]


def scratch(name):
    d = os.path.join(WORK, f"{name}-{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


class Check:
    def __init__(self, pid, tier, level):
        self.pid, self.tier, self.level = pid, tier, level
        self.thorough = tier == "thorough"
        self.seed = SEED
        self.rng = random.Random(f"{pid}-{SEED}")
        self.t0 = time.time()
        self.viol = []
        self.known_hits = {}
        self.states = self.transitions = self.traces = 0
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.notes = []
        self.known = {}
        self.classes = {}
        p = os.path.join(ROOT, "known_findings.jsonl")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if not line:
                    continue
                k = json.loads(line)
                if k.get("status") == "known" and k["property"] == pid:
                    self.known[k["key"]] = k["what"]

    def log(self, *a):
        print(f"[{time.time()-self.t0:6.1f}s]", *a, flush=True)

    def add_tlc(self, r):
        self.states += r.states
        self.transitions += r.transitions

    def ok(self, key=None, cls=None):
        """Counts one comparison between the specification and the implementation."""
        self.evals += 1
        if key is not None:
            self.distinct.add(key)
        if cls is not None:
            self.classes[cls] = self.classes.get(cls, 0) + 1

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s if isinstance(s, str) else json.dumps(s, ensure_ascii=False)[:600])

    def violation(self, key, what, replay):
        if key in self.known:
            self.known_hits[key] = self.known[key]
            return
        if any(v[0] == key for v in self.viol):
            return
        self.viol.append((key, what, replay))

    def finish(self, rule=None):
        os.makedirs(EVID, exist_ok=True)
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "evaluations": self.evals, "distinct_nontrivial": len(self.distinct),
            "rule": rule or "one evaluation = one specification prediction compared with the real code; distinct by abstract case",
            "samples": self.samples or ["-"],
            "classes": self.classes,
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 1), "notes": "; ".join(self.notes)}
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        self.log(f"{self.pid}: states={self.states} transitions={self.transitions} traces={self.traces} evals={self.evals} distinct={len(self.distinct)}")
        if self.classes:
            self.log("classes:", json.dumps(self.classes, sort_keys=True)[:1500])
        for k, w in sorted(self.known_hits.items()):
            print(f"KNOWN-FINDING: property={self.pid} {w}")
        if self.viol:
            os.makedirs(REPLAY, exist_ok=True)
            for n, (key, what, replay) in enumerate(self.viol[:10]):
                path = os.path.join(REPLAY, f"{self.pid}-{n}.json")
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "key": key, "what": what, "replay": replay}, f, indent=1, ensure_ascii=False)
                print(f"VIOLATION property={self.pid} replay={path}")
                print("  " + str(what)[:800])
            if len(self.viol) > 10:
                print(f"  ... and {len(self.viol)-10} more")
            return 1
        print(f"OK property={self.pid} tier={self.tier}")
        return 0
