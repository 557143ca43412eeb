#!/usr/bin/env python3
"""Decides one property of sorty.

  check.py C07 [quick|thorough]     decide a property on the code in /repo
  check.py --replay FILE            run a recorded violation again
  check.py --setup                  warm the build cache

What it does: (1) checks the models of the specification with TLC; (2) builds the library from the
repository's working tree, plain and instrumented; (3) runs both on generated inputs and schedules,
recording what they do; (4) lets TLC decide whether the specification allows what was recorded.
Exit 0: it does. Exit 1, VIOLATION line: the real code did something the specification forbids.
Exit 2: the check could not do its work.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CORES = os.cpu_count() or 4
TLA = "/opt/veriftools/tla"

GOENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off")
GOENV.setdefault("HOME", "/root")
GOENV.setdefault("GOMODCACHE", GOENV["HOME"] + "/go/pkg/mod")
GOENV.setdefault("GOCACHE", GOENV["HOME"] + "/.cache/go-build")
for k in ("GODEBUG", "GOGC", "GOMAXPROCS", "GOEXPERIMENT", "GOMEMLIMIT"):
    GOENV.pop(k, None)
GOENV["GOTRACEBACK"] = "all"

# property -> drivers (number of processes: plain tuneparam build pt, plain default build pc, the same
# for 32-bit words p3, plain tuneparam build that takes its start-up values from the environment pq,
# scheduled sc),
# models: specification modules checked by TLC; gen: modules that generate inputs; scr: schedules
PROPS = {
    "C01": dict(pt=2, pc=1, p3=1, sc=2, models=["API", "Partition", "QuickSort", "ForkData"], gen=["Orders"]),
    "C02": dict(pt=2, pc=1, sc=2, models=["API", "NaNs", "Partition", "ForkData"], gen=["Orders", "NaNs"]),
    "C03": dict(pt=2, pc=1, sc=2, models=["API", "Partition", "QuickSort", "ForkData"], gen=["Orders"]),
    "C04": dict(pt=2, pc=1, p3=1, sc=2, models=["API", "Partition", "QuickSort", "ForkData"], gen=["Orders"]),
    "C05": dict(pt=2, pc=1, p3=1, sc=3, models=["API", "LswPartition", "QuickSort", "ForkData"], gen=["Orders"]),
    "C06": dict(pt=1, pc=1, sc=4, models=["LswPartition", "LswPartitionI", "ForkGor"], scr=True),
    "C07": dict(pt=0, pc=0, sc=6, models=["ForkSort", "ForkGor", "ForkAll"], scr=True),
    "C08": dict(pt=0, pc=0, sc=6, models=["ForkSort", "ForkGor"]),
    "C09": dict(pt=1, pc=1, p3=1, sc=5, models=["ForkSort", "ForkLive", "ForkAll", "PartitionI", "LswPartitionI", "NaNsL"], scr=True),
    "C10": dict(pt=1, pc=1, sc=5, models=["ForkGor", "Judge", "PartitionI"], scr=True),
    "C11": dict(pt=2, pc=1, p3=1, sc=4, models=["ForkSort", "API"]),
    "C12": dict(pt=1, pc=1, p3=1, sc=5, models=["ForkSort", "ForkLive", "ForkAll"], scr=True),
    "C13": dict(pt=3, pc=3, p3=1, sc=1, models=["API", "NaNs"], gen=["Scan"]),
    "C14": dict(pt=2, pc=2, p3=1, sc=0, models=["API", "Search", "SearchAll"], gen=["Search"]),
    "C15": dict(pt=2, pc=2, p3=1, sc=0, models=["Types"]),
    "C16": dict(pt=0, pc=1, sc=6, models=["Depth", "QuickSort"]),
    "C17": dict(pt=2, pc=3, p3=1, sc=2, models=["Gc", "API", "LswPartition"], gen=["Orders"]),
    "C18": dict(pt=0, pc=0, sc=6, models=["ForkSort", "ForkGor"], scr=True),
    "C19": dict(pq=4, models=["Params"], gen=["Params"]),
    "C21": dict(pt=0, pc=0, sc=6, models=["ForkObey"]),
    "C20": dict(pt=0, pc=0, sc=7, models=["LswPartition2", "Work"]),
}

# model -> (module, configuration quick, configuration thorough)
MODELS = {
    "API": ("SortyAPI", "SortyAPI", "SortyAPI_t"),
    "ForkSort": ("ForkSort", "ForkSort", "ForkSort_t"),
    "ForkLive": ("ForkSort", "ForkLive", "ForkLive_t"),
    "ForkGor": ("ForkGor", "ForkGor", "ForkGor_t"),
    "Judge": ("Judge", "Judge", "Judge_t"),
    "Partition": ("Partition", "Partition", "Partition_t"),
    "PartitionI": ("Partition", "PartitionI", "PartitionI_t"),
    "LswPartition": ("LswPartition", "LswPartition", "LswPartition_t"),
    "LswPartitionI": ("LswPartition", "LswPartitionI", "LswPartitionI_t"),
    "QuickSort": ("QuickSort", "QuickSort", "QuickSort_t"),
    "NaNs": ("NaNs", "NaNs", "NaNs_t"),
    "NaNsL": ("NaNs", "NaNsL", "NaNsL_t"),
    "Search": ("Search", "Search", "Search_t"),
    "Types": ("Types", "Types", "Types_t"),
    "Depth": ("Depth", "Depth", "Depth_t"),
    "Gc": ("Gc", "Gc", "Gc_t"),
    "LswPartition2": ("LswPartition", "LswPartition2", "LswPartition2_t"),
    "Work": ("Work", "Work", "Work_t"),
    "ForkObey": ("ForkObey", "ForkObey", "ForkObey_t"),
    "ForkData": ("ForkData", "ForkData", "ForkData_t"),
    "Params": ("Params", "Params", "Params_t"),
}
# inductive invariants, for any size, checked with Apalache
PROOFS = {"SearchAll": None, "ForkAll": "CInit"}
GENS = {
    "Orders": ("GenCases", "GenCases", "GenCases_t"),
    "NaNs": ("GenCases", "GenCases", "GenCases_t"),
    "Scan": ("GenCases", "GenCases", "GenCases_t"),
    "Search": ("GenCases", "GenCases", "GenCases_t"),
    "Params": ("GenCases", "GenCases", "GenCases_t"),
    "Scripts": ("GenScripts", "GenScripts", "GenScripts"),
}

TIERS = {
    "quick": dict(secs=20, events=60000, elems=400000, tlc=400, heap="2500m"),
    "thorough": dict(secs=200, events=900000, elems=6000000, tlc=1500, heap="3500m"),
}


class Trouble(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def run(cmd, cwd=None, env=None, timeout=900, what=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or GOENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True, errors="replace")
    if p.returncode != 0:
        raise Trouble("%s failed:\n%s" % (what or " ".join(cmd), p.stdout[-4000:]))
    return p.stdout


# ---------------------------------------------------------------- building

def harness(scratch):
    h = os.path.join(scratch, "h")
    if not os.path.isdir(h):
        src = os.path.join(VERIF, "harness")
        shutil.copytree(src, h, ignore=shutil.ignore_patterns("isc", "ist"))
        gm = os.path.join(h, "go.mod")
        with open(gm) as f:
            s = f.read()
        with open(gm, "w") as f:
            f.write(s.replace("=> /repo", "=> " + REPO))
    return h


def build(scratch, need):
    """need: subset of {"pc", "pt", "p3", "pq", "sc"}"""
    h = harness(scratch)

    def plain(tag):
        out = os.path.join(scratch, "p" + tag)
        cmd = ["go", "build", "-trimpath", "-o", out]
        if tag in "tq":
            cmd += ["-tags", "tuneparam"]
        if tag == "q":
            ov = os.path.join(scratch, "overlay.json")
            with open(ov, "w") as f:
                json.dump({"Replace": {os.path.join(REPO, "aa_vh_params.go"): os.path.join(h, "params", "aa_params.go.txt")}}, f)
            cmd += ["-overlay", ov]
        if tag == "3":
            # a library that cannot be built for 32 bits breaks no property: there is nothing to judge then
            p = subprocess.run(cmd + ["./plain"], cwd=h, env=dict(GOENV, GOARCH="386", CGO_ENABLED="0"), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=600, text=True, errors="replace")
            ok = p.returncode == 0
            try:
                ok = ok and subprocess.run([out, "-h"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode in (0, 2)
            except OSError as e:
                ok, p.stdout = False, str(e)
            if not ok:
                say("no 32-bit build:", p.stdout[-500:])
                if os.path.exists(out):
                    os.remove(out)
            return
        run(cmd + ["./plain"], h, what="build of the library (plain, %s)" % tag)

    def sched():
        ins = os.path.join(scratch, "instr")
        run(["go", "build", "-trimpath", "-o", ins, "./instr"], h, what="build of the instrumenter")
        run([ins, "-dir", REPO, "-out", os.path.join(h, "isc")], h, what="instrumentation")
        run([ins, "-dir", REPO, "-tags", "tuneparam", "-out", os.path.join(h, "ist")], h, what="instrumentation")
        run(["go", "test", "-trimpath", "-c", "-o", os.path.join(scratch, "sched"), "./sched"], h,
            what="build of the instrumented library")

    with ThreadPoolExecutor(4) as ex:
        fs = []
        if "pc" in need:
            fs.append(ex.submit(plain, "c"))
        if "pt" in need:
            fs.append(ex.submit(plain, "t"))
        if "p3" in need:
            fs.append(ex.submit(plain, "3"))
        if "pq" in need:
            fs.append(ex.submit(plain, "q"))
        if "sc" in need:
            fs.append(ex.submit(sched))
        for f in fs:
            f.result()


# ---------------------------------------------------------------- TLC

def tlc(scratch, module, cfg, env=None, heap="2500m", timeout=400, workers=1, extra=(), until=None):
    """runs TLC, returns (exit code, output); until: list with a deadline that may change"""
    md = tempfile.mkdtemp(prefix="md", dir=scratch)
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + md, "-cp", TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar",
           "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg + ".cfg"] + list(extra) + [module + ".tla"]
    end = time.time() + timeout
    try:
        with open(os.path.join(md, "out"), "w+", errors="replace") as of:
            p = subprocess.Popen(cmd, cwd=os.path.join(VERIF, "spec"), env=dict(os.environ, **(env or {})), stdout=of, stderr=subprocess.STDOUT)
            while True:
                try:
                    p.wait(2)
                    break
                except subprocess.TimeoutExpired:
                    if time.time() > min(end, until and until[0] or end):
                        p.kill()
                        p.wait()
                        raise Trouble("TLC on %s did not finish in time" % module)
            of.seek(0)
            return p.returncode, of.read()
    finally:
        shutil.rmtree(md, ignore_errors=True)


STATES = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left")


def states(out):
    m = None
    for m in STATES.finditer(out):
        pass
    if not m:
        m = re.search(r"number of states generated: ([\d,]+)", out)  # simulation
        return (int(m[1].replace(",", "")), 0) if m else (0, 0)
    return int(m[1].replace(",", "")), int(m[2].replace(",", ""))


def check_proof(scratch, name):
    t0 = time.time()
    steps = [["--init=Init", "--length=0"], ["--init=AnyInv", "--length=1"]]
    ok = 0
    for st in steps:
        for _ in range(2):
            od = tempfile.mkdtemp(prefix="ap", dir=scratch)
            cmd = ["apalache-mc", "check", "--out-dir=" + od, "--inv=Good", "--no-deadlock"] + st
            if PROOFS[name]:
                cmd.append("--cinit=" + PROOFS[name])
            out = ""
            try:
                p = subprocess.run(cmd + [os.path.join(VERIF, "spec", name + ".tla")], cwd=od, timeout=120, text=True, errors="replace",
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, JVM_ARGS="-Xmx1g"))
                out = p.stdout
            except (subprocess.TimeoutExpired, OSError) as x:
                out = str(x)
            shutil.rmtree(od, ignore_errors=True)
            if "EXITCODE: OK" in out:
                ok += 1
                break
            if "The outcome is: Error" in out:
                raise Trouble("the model %s is not right:\n%s" % (name, out[-3000:]))
        else:
            say("NOTE: Apalache gives no answer on %s: %s" % (name, out[-300:])) # says nothing about the code
    return dict(model=name, config=name, states=0, transitions=0, proved="inductive" if ok == len(steps) else "no answer", wall_s=round(time.time() - t0, 1))


def check_model(scratch, name, tier):
    if name in PROOFS:
        return check_proof(scratch, name)
    module, q, t = MODELS[name]
    cfg = q if tier == "quick" else t
    t0 = time.time()
    rc, out = tlc(scratch, module, cfg, heap=TIERS[tier]["heap"], timeout=TIERS[tier]["tlc"], workers=2 if tier == "quick" else 3)
    gen, dist = states(out)
    if rc != 0 or "No error has been found" not in out:
        raise Trouble("the model %s (%s) is not right:\n%s" % (name, cfg, out[-3000:]))
    return dict(model=module, config=cfg, states=dist, transitions=gen, wall_s=round(time.time() - t0, 1))


# ---------------------------------------------------------------- running the code

class Driver:
    def __init__(self, kind, n, prop, tier, scratch, gen=None, scr=None):
        self.kind, self.n, self.prop, self.scratch = kind, n, prop, scratch
        self.secs = TIERS[tier]["secs"]
        self.seed = SEED * 1000 + {"pt": 100, "pc": 200, "sc": 300, "p3": 400, "pq": 500}[kind] + n
        self.out = os.path.join(scratch, "out.%s%d" % (kind, n))
        self.wal = os.path.join(scratch, "wal.%s%d" % (kind, n))
        self.err = os.path.join(scratch, "err.%s%d" % (kind, n))
        self.stats, self.bad = {}, None
        a = ["-prop", prop, "-seed", str(self.seed), "-secs", str(self.secs)]
        b = []
        if kind == "sc":
            b = ["-budget", str(TIERS[tier]["events"])]
            if scr:
                b += ["-scripts", scr]
        else:
            b = ["-budget", str(TIERS[tier]["elems"])]
            if gen:
                b += ["-gen", gen]
        self.args = a + b

    def cmd(self, extra, out, wal):
        if self.kind == "sc":
            return [os.path.join(self.scratch, "sched"), "-test.run", "TestDrive", "-test.timeout", "0"] + extra + ["-out", out, "-wal", wal]
        return [os.path.join(self.scratch, self.kind)] + extra + ["-out", out, "-wal", wal]

    def once(self, extra, out, wal, limit):
        """returns (status, stdout, stderr); status: ok, crash, hang"""
        env = dict(GOENV)
        if self.kind != "sc" and self.prop != "C16":
            env["GOMAXPROCS"] = str([[4, 2, 8, 3], [3, 1, 8, 2]][int(self.prop[1:]) % 2][self.n % 4])
        with open(self.err, "w") as ef, open(self.err + ".out", "w") as of:
            p = subprocess.Popen(self.cmd(extra, out, wal), cwd=self.scratch, env=env, stdout=of, stderr=ef, start_new_session=True)
            st = "ok"
            try:
                rc = p.wait(limit)
                if rc != 0:
                    st = "crash"
            except subprocess.TimeoutExpired:
                st = "hang"
                p.send_signal(signal.SIGQUIT)
                try:
                    p.wait(20)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
        with open(self.err + ".out", errors="replace") as f:
            o = f.read()
        with open(self.err, errors="replace") as f:
            e = f.read()
        if st == "crash" and "HANG in the library" in e:
            st = "hang"
        if st == "crash" and p.returncode in (-9, 137):
            raise Trouble("a driver was killed (memory?)")
        return st, o, e

    def run(self):
        limit = self.secs + 75 + self.secs // 2
        st, o, e = self.once(self.args, self.out, self.wal, limit)
        m = re.findall(r"(?:STATS )?(\{\".*\})", o)
        if m:
            self.stats = json.loads(m[-1])
        if st == "ok":
            if not m:
                raise Trouble("driver %s ended without statistics: %s %s" % (self.kind, o[-500:], e[-500:]))
            return
        # the case in progress
        try:
            with open(self.wal) as f:
                case = f.read().strip()
        except OSError:
            case = ""
        again = None
        if re.fullmatch(r"-?\d+", case):
            extra = self.args + ["-case", case]
            if self.kind == "sc":
                extra += ["-budget", "1000000"]
            for _ in range(4):
                s2, o2, e2 = self.once(extra, self.out + ".again", self.wal + ".again", 60)
                if s2 != "ok":
                    again = (s2, o2 + e2)
                    break
        own = r"jfcg/sorty|vh/is[ct]\.|HANG in the library"
        text = again[1] if again else o + e
        if not again and not re.search(own, o + e):
            raise Trouble("driver %s: %s, not reproduced (case %s):\n%s" % (self.kind, st, case, (o + e)[-3000:]))
        m = re.search(r"^panic: (?![^\n]*(?:nil pointer|SIG|fault)).*?^goroutine \d+ .*?\n\n", text, re.M | re.S)
        if m and not re.search(own, m[0]):
            raise Trouble("driver %s panics outside of the library:\n%s" % (self.kind, text[-3000:]))
        if re.search(r"out of memory|cannot allocate", text):
            raise Trouble("driver out of memory")
        if st == "hang" or (again and again[0] == "hang"):
            # is the code under test what hangs?
            if not re.search(own, text):
                raise Trouble("driver %s hangs outside of the library:\n%s" % (self.kind, text[-3000:]))
        self.bad = dict(op=st if not again else again[0], case=case, text=text[-6000:])

    def files(self):
        if self.bad:
            # records made before are incomplete at the end
            keep = []
            if os.path.exists(self.out):
                with open(self.out, errors="replace") as f:
                    for line in f:
                        try:
                            json.loads(line)
                            keep.append(line)
                        except ValueError:
                            pass
            with open(self.out, "w") as f:
                f.writelines(keep)
        return self.out


def chunks(path, scratch, limit=12 << 20):
    """splits a file of records"""
    size = os.path.getsize(path)
    if size == 0:
        return []
    if size <= limit:
        return [path]
    res, cur, n = [], None, 0
    with open(path) as f:
        for line in f:
            if cur is None or n > limit:
                if cur:
                    cur.close()
                res.append("%s.%d" % (path, len(res)))
                cur, n = open(res[-1], "w"), 0
            cur.write(line)
            n += len(line)
    if cur:
        cur.close()
    os.remove(path)
    return res


def judge(scratch, prop, module, path, tier, until=None):
    """lets TLC judge a file of records: returns (number of records, None or (record, clauses), states)"""
    rc, out = tlc(scratch, module, module, env={"TRACE": path, "PROP": prop}, heap=TIERS[tier]["heap"], timeout=900 if tier == "quick" else 3000, until=until)
    gen, dist = states(out)
    m = re.search(r'<<"REJECTED", (\d+), (\{.*?\})>>', out, re.S)
    if m:
        line = int(m[1])
        with open(path) as f:
            for i, s in enumerate(f, 1):
                if i == line:
                    return line, (json.loads(s), m[2]), dist
    if rc != 0 or "No error has been found" not in out:
        raise Trouble("TLC could not judge %s:\n%s" % (path, out[-3000:]))
    with open(path) as f:
        n = sum(1 for _ in f)
    if dist != n + 1:
        raise Trouble("TLC judged %d of %d records" % (dist - 1, n))
    return n, None, dist


def short(x, n=60):
    if isinstance(x, list):
        if len(x) > n:
            return [short(y, n) for y in x[:n]] + ["... %d more" % (len(x) - n)]
        return [short(y, n) for y in x]
    if isinstance(x, dict):
        return {k: short(v, n) for k, v in x.items()}
    return x


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            a[k] = merge(a.get(k, {}), v)
        elif isinstance(v, (int, float)):
            a[k] = max(a.get(k, 0), v) if k.startswith("max") or k.startswith("mg") else a.get(k, 0) + v
    return a


# ---------------------------------------------------------------- findings

def findings(prop):
    """open findings: {"property":..., "what":..., "match": {field: value}} per line starting with 'finding: '"""
    res = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("finding: "):
                x = json.loads(line[9:])
                if x["property"] == prop:
                    res.append(x)
    return res


def known(prop, rec, clauses):
    for x in findings(prop):
        if all(rec.get(k) == v for k, v in x["match"].items()) and x.get("clauses", clauses) == clauses:
            return x
    return None


# ---------------------------------------------------------------- the check

def violation(prop, tier, d, rec, clauses, source):
    out = os.path.join(VERIF, "out")
    os.makedirs(out, exist_ok=True)
    path = os.path.join(out, "%s-%s-%s.json" % (prop, d.kind, re.sub(r"\W", "_", str(rec.get("case", "x")))))
    with open(path, "w") as f:
        json.dump(dict(property=prop, clauses=clauses, driver=d.kind, n=d.n, seed=d.seed, vseed=SEED, tier=tier, case=rec.get("case"), judged_by=source, record=rec), f)
    say("rejected by %s: clauses %s" % (source, clauses))
    say(json.dumps(short(rec, 30))[:1500])
    say("VIOLATION property=%s replay=%s" % (prop, path))


def check(prop, tier):
    t0 = time.time()
    cf = PROPS[prop]
    scratch = tempfile.mkdtemp(prefix="vh-%s-" % prop, dir="/tmp")
    os.chmod(scratch, 0o755)
    models, trouble = [], []
    try:
        # models and generators run while the code is built
        pool = ThreadPoolExecutor(4)
        mf = [pool.submit(check_model, scratch, m, tier) for m in cf.get("models", [])]
        gens = pool.submit(cases_of, scratch, prop, tier)
        build(scratch, {k for k in ("pt", "pc", "p3", "pq", "sc") if cf.get(k)})
        gen, scripts, done = gens.result()
        models += done
        ngen = sum(m["cases"] for m in done)
        ds = [Driver(k, i, prop, tier, scratch, gen if i == 0 else None, scripts if i == 0 else None)
              for k in ("sc", "pt", "pc", "p3", "pq") for i in range(cf.get(k, 0))
              if k != "p3" or os.path.exists(os.path.join(scratch, k))]
        tb = time.time()
        with ThreadPoolExecutor(max(1, min(len(ds), CORES))) as ex:
            for f in [ex.submit(d.run) for d in ds]:
                try:
                    f.result()
                except Trouble as e:
                    trouble.append(str(e))
        td = time.time()
        stats = {}
        for d in ds:
            merge(stats.setdefault({"sc": "scheduled", "p3": "plain, 32 bits"}.get(d.kind, "plain"), {}), d.stats)
        jobs = []
        for d in ds:
            if not os.path.exists(d.out):
                continue
            module = "TraceGor" if d.kind == "sc" else "TraceCalls"
            for c in chunks(d.files(), scratch):
                jobs.append((d, module, c))
            if d.bad:
                c = os.path.join(scratch, "bad.%s%d" % (d.kind, d.n))
                with open(c, "w") as f:
                    f.write(json.dumps(d.bad) + "\n")
                jobs.append((d, "TraceCalls", c))
        judged, viol, tstates, samples = 0, 0, 0, []
        until = [t0 + (780 if tier == "quick" else 9000)]
        with ThreadPoolExecutor(max(1, CORES - 1)) as ex:
            fs = [(d, m, c, ex.submit(judge, scratch, prop, m, c, tier, until)) for d, m, c in jobs]
            by = {f: (d, m, c) for d, m, c, f in fs}
            for f in as_completed(by):
                d, m, c = by[f]
                try:
                    n, bad, dist = f.result()
                except Trouble as e:
                    trouble.append(str(e))
                    continue
                judged += n
                tstates += dist
                if bad:
                    k = known(prop, bad[0], bad[1])
                    if k:
                        say("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                        continue
                    viol += 1
                    until[0] = min(until[0], time.time() + 60)  # the others need not be complete
                    violation(prop, tier, d, bad[0], bad[1], m)
                elif len(samples) < 4:
                    with open(c) as g:
                        samples.append(short(json.loads(g.readline()), 12))
        for f in mf:
            try:
                models.append(f.result())
            except Trouble as e:
                trouble.append(str(e))
        if viol == 0 and not trouble and judged == 0:
            trouble.append("nothing was judged")
        ev = {
            "property": prop, "tier": tier, "seed": SEED, "level": "model_checking",
            "coverage": {
                "states": sum(m["states"] for m in models) + tstates,
                "transitions": sum(m["transitions"] for m in models) + tstates,
                "traces_validated_against_impl": judged,
                "samples": samples or ["none"],
                "models": models,
                "evaluations": sum(s.get("cases", 0) for s in stats.values()),
                "rule": "inputs and schedules are functions of the seed; all runs are screened, those judged by TLC are "
                        "chosen evenly over the run time, first of all anything that looks suspicious",
                "generated_by_specification": ngen,
                "runs": stats,
            },
            "assumptions": ["see DESIGN.md, section on trust"],
            "wall_s": round(time.time() - t0, 1), "violations": viol,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        say("%s %s: %d violations; %d traces judged, %d runs; models %s; %.1f s (build %.1f, run %.1f, judge %.1f)" % (
            prop, tier, viol, judged, ev["coverage"]["evaluations"], ", ".join("%s %s" % (m["config"], m.get("proved", m["states"])) for m in models) or "-",
            time.time() - t0, tb - t0, td - tb, time.time() - td))
        if viol:
            return 1
        if trouble:
            raise Trouble("\n".join(trouble))
        return 0
    finally:
        if os.environ.get("VERIF_KEEP"):
            say("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def generate(scratch, name, tier):
    """runs a module that writes cases to OUT"""
    module, q, t = GENS[name]
    out = os.path.join(scratch, "gen.%s" % name)
    cfg = q if tier == "quick" else t
    t0 = time.time()
    extra = []
    if name == "Scripts":
        extra = ["-simulate", "num=%d" % (150 if tier == "quick" else 3000), "-seed", str(SEED), "-depth", "500"]
    rc, o = tlc(scratch, module, cfg, env={"OUT": out, "SEED": str(SEED), "KIND": name}, heap=TIERS[tier]["heap"],
                timeout=TIERS[tier]["tlc"], extra=extra)
    if name == "Scripts" and rc == 0:
        with open(out, "w") as f:
            for m in re.finditer(r'^"CASE (.*)"$', o, re.M):
                f.write(m[1].replace('\\"', '"') + "\n")
    if rc != 0 or not os.path.exists(out) or os.path.getsize(out) == 0:
        raise Trouble("generator %s failed:\n%s" % (name, o[-3000:]))
    gen, dist = states(o)
    with open(out) as f:
        return out, dict(model=module, generated=name, config=cfg, states=dist, transitions=gen, cases=sum(1 for _ in f), wall_s=round(time.time() - t0, 1))


def cases_of(scratch, prop, tier):
    """cases and schedules generated by the specification for a property: two files (or None), what TLC did"""
    cf = PROPS[prop]
    gen = scr = None
    done = []
    for g in cf.get("gen", []):
        path, st = generate(scratch, g, tier)
        done.append(st)
        gen = os.path.join(scratch, "gen.json")
        with open(gen, "a") as f, open(path) as h:
            shutil.copyfileobj(h, f)
    if cf.get("scr"):
        scr, st = generate(scratch, "Scripts", tier)
        done.append(st)
    return gen, scr, done


def replay(path):
    with open(path) as f:
        v = json.load(f)
    scratch = tempfile.mkdtemp(prefix="vh-replay-", dir="/tmp")
    os.chmod(scratch, 0o755)
    try:
        build(scratch, {v["driver"]})
        d = Driver(v["driver"], v["n"], v["property"], "quick", scratch)
        d.seed = v["seed"]
        extra = []
        if int(v["case"]) < 0:
            global SEED
            SEED = v.get("vseed", SEED)
            gen, scr, _ = cases_of(scratch, v["property"], v.get("tier", "quick"))
            extra = ["-scripts", scr] if d.kind == "sc" else ["-gen", gen]
        st, o, e = d.once(["-prop", v["property"], "-seed", str(d.seed), "-case", str(v["case"])] + extra, d.out, d.wal, 120)
        say(o[-2000:], e[-3000:])
        if st != "ok":
            say(st)
            return 1
        n, bad, _ = judge(scratch, v["property"], v["judged_by"], d.out, "quick")
        say("%d records; %s" % (n, "rejected: %s %s" % (bad[1], json.dumps(short(bad[0]))) if bad else "all allowed"))
        return 1 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    scratch = tempfile.mkdtemp(prefix="vh-setup-", dir="/tmp")
    try:
        build(scratch, {"pt", "pc", "p3", "sc"})
        rc, out = tlc(scratch, "SortyAPI", "SortyAPI")
        say(out[-300:])
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--setup"]:
            return setup()
        if a[:1] == ["--replay"]:
            return replay(a[1])
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        if a[0] not in PROPS or tier not in TIERS:
            say(__doc__)
            return 2
        return check(a[0], tier)
    except Trouble as e:
        say("TROUBLE:", e)
        return 2
    except subprocess.TimeoutExpired as e:
        say("TROUBLE:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
