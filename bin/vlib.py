"""Common machinery: build the harness against a tree, run TLC, run scenarios, collect verdicts."""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = os.environ.get("VERIF_SEED", "1")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOMOD = "/opt/vp/gomod"
CORES = os.cpu_count() or 4


class Broken(Exception):
    """The machinery (not the code under test) failed."""


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GO111MODULE="on",
             CGO_ENABLED="1", GOCACHE=os.path.join(BUILD, "gocache"), GOSUMDB="off")
    e.setdefault("HOME", "/root")
    return e


def sources(repo):
    for top in ("pkg", "cmd"):
        for d, _, fs in os.walk(os.path.join(repo, top)):
            for f in sorted(fs):
                if not f.endswith("_test.go"):
                    p = os.path.join(d, f)
                    if os.path.isfile(p):
                        yield os.path.relpath(p, repo)


def workspace(repo=None):
    """A copy of the non-test sources of the tree with a go.mod of its own; /repo is only read."""
    repo = repo or REPO
    ws = os.path.join(BUILD, "ws-" + hashlib.sha256(os.path.realpath(repo).encode()).hexdigest()[:8])
    os.makedirs(ws, exist_ok=True)
    dst = os.path.join(ws, "repo")
    want = set()
    for rel in sources(repo):
        want.add(rel)
        a, b = os.path.join(repo, rel), os.path.join(dst, rel)
        data = open(a, "rb").read()
        if not os.path.exists(b) or open(b, "rb").read() != data:
            os.makedirs(os.path.dirname(b), exist_ok=True)
            open(b, "wb").write(data)
    for d, _, fs in os.walk(dst):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), dst)
            if rel not in want and rel not in ("go.mod", "go.sum"):
                os.remove(os.path.join(d, f))
    gm = os.path.join(repo, "go.mod")
    if not os.path.exists(gm):
        gm = os.path.join(GOMOD, "go.mod")
    gm = open(gm).read()
    write(os.path.join(dst, "go.mod"), gm)
    gs = os.path.join(repo, "go.sum")
    if not os.path.exists(gs):
        gs = os.path.join(GOMOD, "go.sum")
    stubs = os.path.join(VERIF, "harness", "stubs")
    main = "module a.verif/harness\n\ngo 1.19\n\nrequire gitlab.com/alephledger/threshold-ecdsa v0.0.0\n"
    # the requirements of the tree itself
    main += "\n".join(re.findall(r"(?ms)^require \(.*?^\)", gm) + re.findall(r"(?m)^require [^(\n]+$", gm)) + "\n"
    extra = {"gitlab.com/alephledger/core-go": "core-go", "github.com/binance-chain/tss-lib": "tss-lib",
             "github.com/rs/zerolog": "zerolog"}
    for m, d in extra.items():
        main += "require %s v0.0.0\nreplace %s => %s\n" % (m, m, os.path.join(stubs, d))
    main += "replace gitlab.com/alephledger/threshold-ecdsa => %s\n" % dst
    write(os.path.join(ws, "go.mod"), main)
    if not os.path.exists(os.path.join(ws, "go.sum")):
        shutil.copy(gs, os.path.join(ws, "go.sum"))
    return ws


def write(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def locked(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def gobuild(pkg, race=False, repo=None, overlay=None, name=None):
    """Builds a command of the harness (./hcrypto) or of the tree (its import path), in the latter case perhaps with a
    file added to it. Without the addition if it does not fit: None."""
    with locked("go"):
        ws = workspace(repo)
        out = os.path.join(ws, (name or pkg.strip("./").replace("/", "_")) + ("-race" if race else ""))
        extra = []
        if overlay:
            at = os.path.join(ws, out + ".overlay")
            write(at, json.dumps({"Replace": {os.path.join(ws, "repo", k): v for k, v in overlay.items()}}))
            extra = ["-overlay", at]
        cmd = ["go", "build", "-modfile=" + os.path.join(ws, "go.mod"), "-o", out] + (["-race"] if race else []) + extra + [pkg]
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=goenv(), capture_output=True, text=True)
        if p.returncode and overlay:
            return None
        if p.returncode:
            raise Broken("building %s failed:\n%s" % (pkg, p.stdout + p.stderr))
    return out


def javac():
    """Compiles the TLC operators of module BigZ."""
    out = os.path.join(BUILD, "java")
    src = os.path.join(VERIF, "java", "BigZ.java")
    with locked("java"):
        if not os.path.exists(os.path.join(out, "BigZ.class")) or os.path.getmtime(os.path.join(out, "BigZ.class")) < os.path.getmtime(src):
            os.makedirs(out, exist_ok=True)
            p = subprocess.run(["javac", "-cp", JARS, "-d", out, src], capture_output=True, text=True)
            if p.returncode:
                raise Broken("javac: " + p.stderr)
    return out


class TLC:
    """Result of a TLC run."""

    def __init__(self, module, rc, out):
        self.module, self.rc, self.out = module, rc, out
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m.group(1).replace(",", "")) if m else 0
        self.distinct = int(m.group(2).replace(",", "")) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0

    def printed(self):
        """Strings printed with PrintT(ToJson(..)), decoded."""
        for line in self.out.splitlines():
            if line.startswith('"') and line.endswith('"'):
                try:
                    yield json.loads(json.loads(line))
                except ValueError:
                    pass


_running = []


def tlc(module, cfg=None, env=None, args=(), timeout=600, heap="3g", workers="1", cwd=None):
    cp = javac() + ":" + JARS
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    cmd = ["java", "-Xss512m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
           "-cp", cp, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-deadlock", "-workers", str(workers), "-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    try:
        p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC on %s took more than %d s" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TLC(module, p.returncode, p.stdout)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        os.makedirs(BUILD, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run", dir=BUILD)
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def model_check(module, cfg=None, env=None, timeout=600, workers="2", heap="3g"):
    """A property of the specification itself; anything but success is a defect of the machinery."""
    r = tlc(module, cfg, env, timeout=timeout, workers=workers, heap=heap)
    if r.rc != 0:
        raise Broken("the specification %s fails:\n%s" % (cfg or module, r.out[-4000:]))
    return r


def generate(module, cfg=None, env=None, num=None, depth=None, seed=None, timeout=600, out=None, workers="1"):
    """Scenarios printed by a specification, written to a file, one per line; returns their number."""
    args = []
    if num:
        args = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
    r = tlc(module, cfg, env, args=args, timeout=timeout, workers=workers)
    if r.rc != 0:
        raise Broken("generation with %s fails:\n%s" % (module, r.out[-4000:]))
    n = 0
    seen = set()
    with open(out, "a") as f:
        for sc in r.printed():
            line = json.dumps(sc, sort_keys=True)
            if line in seen:
                continue
            seen.add(line)
            f.write(line + "\n")
            n += 1
    if n == 0:
        raise Broken("%s generated nothing:\n%s" % (module, r.out[-3000:]))
    return n


# the fields of the first event of a scenario that died before it wrote one
RESET = {"op": "reset", "bases": ["0", "0"], "base": [], "shared": [], "n": 0, "h": "0"}


def execute(binary, kind, scen, trace, timeout=600, args=(), per_scenario=60, env=None, jobs=1):
    """Runs scenarios on the real code, in several processes if asked to. If a process dies or hangs, that is recorded
    as an event of the scenario, and the rest is run by another process. Returns the path of the trace."""
    total = sum(1 for _ in open(scen))
    if jobs <= 1:
        return execute1(binary, kind, scen, trace, 0, total, timeout, args, per_scenario, env)
    cuts = [total * j // jobs for j in range(jobs + 1)]
    with cf.ThreadPoolExecutor(jobs) as ex:
        parts = list(ex.map(lambda j: execute1(binary, kind, scen, "%s.j%d" % (trace, j), cuts[j], cuts[j + 1], timeout,
                                               list(args) + ["-limit", str(cuts[j + 1])], per_scenario, env), range(jobs)))
    with open(trace, "w") as f:
        for part in parts:
            for l in open(part):
                if l.strip() and json.loads(l).get("op") != "end":
                    f.write(l)
            os.remove(part)
        f.write('{"op":"end"}\n')
    return trace


def keep_complete(tmp, trace):
    """Appends the events of the scenarios that were finished."""
    if not os.path.exists(tmp):
        return
    done, cur = [], []
    for l in open(tmp, errors="replace"):
        try:
            op = json.loads(l).get("op")
        except ValueError:
            break
        if op in ("reset", "end"):
            done, cur = done + cur, []
        cur.append(l.rstrip("\n"))
    os.remove(tmp)
    with open(trace, "a") as f:
        f.write("".join(l + "\n" for l in done))


def execute1(binary, kind, scen, trace, skip, total, timeout, args, per_scenario, env):
    open(trace, "w").close()
    if skip >= total:
        return trace
    part = 0
    deadline = time.time() + timeout
    crashes = hangs = 0
    while skip < total:
        part += 1
        tmp = "%s.%d" % (trace, part)
        e = dict(os.environ)
        e["VERIF_SEED"] = SEED
        e.update(env or {})
        p = subprocess.Popen([binary, "-kind", kind, "-in", scen, "-out", tmp, "-skip", str(skip)] + list(args),
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e)
        last = [skip, time.time()]
        errs = []

        def rd():
            for line in p.stdout:
                if line.strip().isdigit():
                    last[0], last[1] = int(line), time.time()

        def rderr():
            for line in p.stderr:
                if len(errs) < 400:
                    errs.append(line)
        th = [threading.Thread(target=rd), threading.Thread(target=rderr)]
        for t in th:
            t.start()
        hung = False
        while p.poll() is None:
            time.sleep(0.05)
            if time.time() - last[1] > per_scenario:
                hung = True
                p.kill()
                break
            if time.time() > deadline:
                p.kill()
                for t in th:
                    t.join()
                # what has happened so far is judged all the same
                keep_complete(tmp, trace)
                open(scen + ".cut", "w").close()
                return trace
        p.wait()
        for t in th:
            t.join()
        err = "".join(errs)
        lines = open(tmp, errors="replace").read().splitlines() if os.path.exists(tmp) else []
        if os.path.exists(tmp):
            os.remove(tmp)
        good = []
        for l in lines:
            try:
                json.loads(l)
                good.append(l)
            except ValueError:
                break
        if p.returncode == 0 and not hung:
            with open(trace, "a") as f:
                f.write("\n".join(good) + "\n")
            break
        if p.returncode == 2 and err.startswith("HARNESS"):
            raise Broken("harness: " + err[:2000])
        if not hung and "goroutine" not in err and "signal" not in err and "fatal" not in err and "SIG" not in err:
            raise Broken("harness ended with %s: %s" % (p.returncode, err[:2000]))
        what = "hang" if hung else "crash"
        crashes += 1
        hangs += hung
        with open(trace, "a") as f:
            for l in good:
                f.write(l + "\n")
            # the crashed scenario may have left no event at all
            if not any(json.loads(l).get("op") == "reset" and json.loads(l).get("id") == last[0] for l in good):
                f.write(json.dumps(dict(RESET, id=last[0])) + "\n")
            f.write(json.dumps({"op": what, "msg": first_line(err)}) + "\n")
        skip = last[0]
        if crashes > 20 or hangs >= 3:
            break
    return trace


def first_line(err):
    for l in err.splitlines():
        if l.startswith(("panic:", "fatal error:", "unexpected fault", "SIG")):
            return l[:200]
    return err[:200]


def split_trace(trace, parts):
    """Splits at scenario boundaries."""
    blocks, cur = [], []
    for line in open(trace):
        if not line.strip():
            continue
        if '"op":"reset"' in line or '"op": "reset"' in line:
            if cur:
                blocks.append(cur)
            cur = []
        cur.append(line if line.endswith("\n") else line + "\n")
    if cur:
        blocks.append(cur)
    n = max(1, min(parts, len(blocks)))
    # balance by size
    order = sorted(range(len(blocks)), key=lambda i: -sum(map(len, blocks[i])))
    load, bins = [0] * n, [[] for _ in range(n)]
    for i in order:
        j = load.index(min(load))
        bins[j].append(i)
        load[j] += sum(map(len, blocks[i]))
    out = []
    for j in range(n):
        path = "%s.part%d" % (trace, j)
        with open(path, "w") as f:
            for i in sorted(bins[j]):
                f.writelines(blocks[i])
            f.write('{"op":"end"}\n')
        out.append(path)
    return out, len(blocks)


class Validation:
    def __init__(self):
        self.events = self.scenarios = self.states = 0
        self.rejected = []      # (scenario id, event, expectation)
        self.known = []
        self.kinds = {}


def validate(module, trace, prop, cfg=None, env=None, parts=None, timeout=800):
    """Is the trace a behaviour of the specification?"""
    v = Validation()
    paths, v.scenarios = split_trace(trace, parts or 6)

    def one(path):
        n = sum(1 for _ in open(path))
        e = {"TRACE": path, "PROP": prop}
        e.update(env or {})
        r = tlc(module, cfg, e, timeout=timeout)
        return path, n, r
    with cf.ThreadPoolExecutor(len(paths)) as ex:
        for path, n, r in ex.map(one, paths):
            rej = []
            for x in r.printed():
                if isinstance(x, dict) and x.get("verdict") in ("REJECTED", "KNOWN"):
                    rej.append(x)
            if r.rc != 0 or "Model checking completed. No error" not in r.out:
                raise Broken("validation of %s with %s fails:\n%s" % (path, module, r.out[-5000:]))
            if r.depth != n + 1:
                raise Broken("validation of %s with %s stopped after %d of %d events:\n%s" % (path, module, r.depth - 1, n, r.out[-3000:]))
            v.events += n
            v.states += r.distinct
            (v.rejected.extend(x for x in rej if x["verdict"] == "REJECTED"))
            (v.known.extend(x for x in rej if x["verdict"] == "KNOWN"))
    for line in open(trace):
        if line.strip():
            k = json.loads(line).get("op")
            v.kinds[k] = v.kinds.get(k, 0) + 1
    return v
