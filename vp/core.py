"""Small property-based testing engine: recorded choice sequences, shrinking, parallel search,
evidence and replay files."""
import os, sys, random, json, time, hashlib, shutil, signal, tempfile, traceback, resource, multiprocessing, queue
from . import build as B

VERIF = B.VERIF

class Exhausted(Exception): pass

class Src:
    """Source of choices. Every draw is an integer in [0,n) recorded in self.rec."""
    __slots__ = ("rng", "pre", "rec", "spans")
    def __init__(self, rng=None, pre=None):
        self.rng, self.pre, self.rec, self.spans = rng, pre, [], []
    def below(self, n):
        if n <= 1:
            return 0
        if self.pre is not None:
            i = len(self.rec)
            v = self.pre[i] if i < len(self.pre) else 0
            if i > 2 * len(self.pre) + 3000: raise Exhausted()       # a rejection loop that never ends on zeros
            if v >= n: v = n - 1
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v
    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)
    def bool(self, p=0.5):
        # recorded as 0/1 with 0 = False
        if self.pre is not None:
            return self.below(2) == 1
        v = 1 if self.rng.random() < p else 0
        self.rec.append(v)
        return v == 1
    def pick(self, seq):
        return seq[self.below(len(seq))]
    def wpick(self, pairs):
        """pairs: [(weight, value)]; first entry is the simplest."""
        if self.pre is not None:
            return pairs[self.below(len(pairs))][1]
        t = sum(w for w, _ in pairs)
        x = self.rng.random() * t
        for i, (w, v) in enumerate(pairs):
            x -= w
            if x < 0: break
        if len(pairs) > 1:
            self.rec.append(i)
        return v
    def many(self, fn, lo, hi, p=None):
        """list of fn(self), length lo..hi; each element is a deletable span."""
        if p is None:
            avg = (lo + hi) / 2.0
            p = 1 - 1 / (avg - lo + 1.0001)
        out = []
        while len(out) < hi:
            a = len(self.rec)
            if len(out) >= lo and not self.bool(p):
                break
            out.append(fn(self))
            self.spans.append((a, len(self.rec)))
        return out
    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq
    def bytes(self, n):
        return bytes(self.below(256) for _ in range(n))
    # numbers biased to edges
    def edgy(self, bits=32, signed=True):
        """An integer of about `bits` bits, biased to powers of two and their neighbours."""
        k = self.wpick([(3, 0), (3, 1), (3, 2), (1, 3)])
        if k == 0:
            v = self.below(20)
        elif k == 1:
            v = (1 << self.below(bits + 1)) + self.below(5) - 2
        elif k == 2:
            v = self.below(1 << (1 + self.below(bits)))
        else:
            v = self.below(1 << bits)
        v = abs(v)
        if signed and self.bool(0.35):
            v = -v
        return v

class Fail(Exception):
    """Oracle mismatch. tag identifies known findings."""
    def __init__(self, msg, tag=None):
        super().__init__(msg)
        self.msg, self.tag = msg, tag

class Run:
    __slots__ = ("rc", "out", "timeout", "env", "before")
    def __init__(self, rc, out, timeout, env, before):
        self.rc, self.out, self.timeout, self.env, self.before = rc, out, timeout, env, before
    def read(self, name):
        try:
            with open(os.path.join(self.env.dir, name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None
        except (IsADirectoryError, NotADirectoryError):
            return None
    def snapshot(self):
        return self.env.snapshot()
    @property
    def text(self):
        return self.out.decode("utf-8", "replace")
    def lines(self):
        return [l for l in self.text.splitlines() if l.strip()]
    def errors(self):
        return [l for l in self.lines() if " error: " in l or l.startswith("error") or " fatal error: " in l or "fatal error:" in l]
    def warnings(self):
        return [l for l in self.lines() if "warning: " in l]

class Env:
    """Per-worker scratch directory and runner."""
    def __init__(self, exe, root, timeout=20, environ=None, limits=True, unprivileged=False, stack=0):
        self.exe, self.root, self.timeout = exe, root, timeout
        self.argv = ["armips"]; self.mode = 0o644
        self.dir = os.path.join(root, "d")
        os.makedirs(self.dir, exist_ok=True)
        if unprivileged and os.geteuid() == 0:      # arbitrary inputs: the program may only touch its own files
            for d in (os.path.dirname(root), root): os.chmod(d, 0o755)
            os.chmod(self.dir, 0o777); os.chmod(exe, 0o755)
            self.mode = 0o666; self.argv = ["setpriv", "--reuid=65534", "--regid=65534", "--clear-groups", exe]; self.exe = shutil.which("setpriv") or "/usr/bin/setpriv"
        self.outp = os.path.join(root, "stdout")
        self.environ = environ or {}
        self.runs = 0
        os.chdir(self.dir)
        if limits:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if stack: resource.setrlimit(resource.RLIMIT_STACK, (stack, resource.getrlimit(resource.RLIMIT_STACK)[1]))
        signal.signal(signal.SIGALRM, self._alarm)
        self.pid = 0
    def _alarm(self, *a):
        if self.pid:
            try: os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            self.killed = True
    def clean(self):
        for e in os.scandir(self.dir):
            if e.is_dir(follow_symlinks=False):
                shutil.rmtree(e.path, ignore_errors=True)
            else:
                os.unlink(e.path)
    def write(self, files):
        for n, d in files.items():
            if isinstance(d, str): d = d.encode("utf-8")
            p = os.path.join(self.dir, n)
            if "/" in n: os.makedirs(os.path.dirname(p), exist_ok=True)
            fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            if self.mode != 0o644: os.fchmod(fd, self.mode)
            try:
                mv = memoryview(d)
                while mv:
                    k = os.write(fd, mv); mv = mv[k:]
            finally:
                os.close(fd)
    def snapshot(self):
        r = {}
        for root, dirs, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(root, f)
                with open(p, "rb") as h: r[os.path.relpath(p, self.dir)] = h.read()
        return r
    def run(self, files, args=("a.asm",), keep=False, snap=False, timeout=None):
        if not keep: self.clean()
        self.write(files)
        before = self.snapshot() if snap else None
        self.killed = False
        self.runs += 1
        pid = os.posix_spawn(self.exe, self.argv + list(args), self.environ, file_actions=[
            (os.POSIX_SPAWN_OPEN, 0, "/dev/null", os.O_RDONLY, 0),
            (os.POSIX_SPAWN_OPEN, 1, self.outp, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600),
            (os.POSIX_SPAWN_DUP2, 1, 2)])
        self.pid = pid
        signal.setitimer(signal.ITIMER_REAL, timeout or self.timeout)
        try:
            while True:
                try:
                    _, st = os.waitpid(pid, 0); break
                except InterruptedError:
                    continue
        finally:
            self.pid = 0
            signal.setitimer(signal.ITIMER_REAL, 0)
        rc = os.waitstatus_to_exitcode(st)
        with open(self.outp, "rb") as f: out = f.read(1 << 20)
        return Run(rc, out, self.killed, self, before)

class Check:
    ID = None
    RULE = ""
    BUILD = "rel"
    QUICK = 2000          # number of generated cases
    THOROUGH = 100000
    QUICK_S = 60          # time cap (s)
    THOROUGH_S = 1800
    LIMITS = True
    STACK = 0             # stack limit in bytes
    UNPRIVILEGED = False  # run the program as another user
    TIMEOUT = 20
    ENVIRON = {}
    ASSUMPTIONS = []
    def gen(self, s): raise NotImplementedError
    def run(self, case, env):
        """-> (evaluations, iterable of nontrivial keys, sample or None); raises Fail."""
        raise NotImplementedError
    def render(self, case):
        return case
    def explicit(self):
        """fixed cases (same type as gen's result) run before the random ones"""
        return []
    def setup(self, exe): pass
    def slow(self): return 1.0

def _key(k):
    return int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=8).digest(), "big")

def run_case(chk, case, env):
    """-> (n, keys, sample, fail|None)"""
    try:
        n, keys, sample = chk.run(case, env)
        return n, keys, sample, None
    except Fail as f:
        return 1, (), None, f
    except (OSError, MemoryError):
        raise
    except Exception:
        return 1, (), None, Fail("oracle exception: " + traceback.format_exc())

def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k["property"] == pid and k.get("status") == "known"]

def _scratch():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="vp-", dir=base)

def worker(chk, exe, w, W, seed, count, deadline, stop, q, root, known):
    try:
        env = Env(exe, os.path.join(root, "w%d" % w), timeout=chk.TIMEOUT, environ=chk.ENVIRON, limits=chk.LIMITS, unprivileged=chk.UNPRIVILEGED, stack=chk.STACK)
        evals = 0; keys = set(); samples = []; knownhits = {}; cases = 0
        status = None
        ex = chk.explicit()
        for i in range(w, count + len(ex), W):
            if stop.is_set() or time.time() > deadline: break
            if i < len(ex):
                s = None; case = ex[i]
            else:
                s = Src(random.Random("%d:%s:%d" % (seed, chk.ID, i - len(ex))))
                case = chk.gen(s)
            n, ks, sample, fail = run_case(chk, case, env)
            cases += 1
            if fail is not None and fail.tag in known:
                knownhits[fail.tag] = knownhits.get(fail.tag, 0) + 1
                continue
            if fail is not None:
                stop.set()
                status = ("fail", i, s.rec if s else None, i if s is None else None, list(s.spans) if s else [], fail.msg)
                break
            evals += n
            for k in ks:
                if len(keys) < 400000: keys.add(_key(k))
            if sample is not None and len(samples) < 4: samples.append(sample)
        q.put((w, evals, cases, keys, samples, status, knownhits, env.runs, None))
    except BaseException:
        stop.set()
        q.put((w, 0, 0, set(), [], None, {}, 0, traceback.format_exc()))

def shrink(chk, rec, spans, env, known, budget_s):
    """Greedy shrink of a failing choice sequence."""
    end = time.time() + budget_s
    def test(pre):
        s = Src(pre=pre)
        try:
            case = chk.gen(s)
        except Exception:
            return None
        f = run_case(chk, case, env)[3]
        if f is None or f.tag in known: return None
        return s.rec, list(s.spans), f
    best = test(rec)
    if best is None: return None
    def better(a, b): return (len(a), a) < (len(b), b)
    improved = True
    while improved and time.time() < end:
        improved = False
        # structural spans
        i = 0
        sp = sorted(best[1], key=lambda x: x[0] - x[1])
        while i < len(sp) and time.time() < end:
            a, b = sp[i]
            r = test(best[0][:a] + best[0][b:])
            if r and better(r[0], best[0]):
                best = r; improved = True
                sp = sorted(best[1], key=lambda x: x[0] - x[1])
            else:
                i += 1
        # chunks
        for size in (16, 8, 4, 2, 1):
            i = len(best[0]) - size
            while i >= 0 and time.time() < end:
                r = test(best[0][:i] + best[0][i + size:])
                if r and better(r[0], best[0]): best = r; improved = True
                i -= size if size > 1 else 1
                i = min(i, len(best[0]) - size)
        # values
        i = 0
        while i < len(best[0]) and time.time() < end:
            v = best[0][i]
            if v:
                lo, hi = -1, v          # hi fails
                for cand in (0, 1):
                    if cand < hi:
                        r = test(best[0][:i] + [cand] + best[0][i + 1:])
                        if r and better(r[0], best[0]):
                            best = r; improved = True; hi = cand; break
                        lo = cand
                while i < len(best[0]) and hi - lo > 1 and time.time() < end:
                    mid = (lo + hi) // 2
                    r = test(best[0][:i] + [mid] + best[0][i + 1:])
                    if r and better(r[0], best[0]): best = r; improved = True; hi = mid
                    else: lo = mid
            i += 1
    return best

def jsonable(x):
    if isinstance(x, bytes): return "hex:" + x.hex()
    if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None: return x
    return repr(x)

def main(chk, argv):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    W = int(os.environ.get("VP_WORKERS", "8"))
    count = secs = None
    replay = None
    i = 0
    while i < len(argv):
        a = argv[i]
        if a == "--tier": tier = argv[i + 1]; i += 1
        elif a == "--seed": seed = int(argv[i + 1]); i += 1
        elif a == "--cases": count = int(argv[i + 1]); i += 1
        elif a == "--secs": secs = float(argv[i + 1]); i += 1
        elif a == "--replay": replay = argv[i + 1]; i += 1
        elif a == "--workers": W = int(argv[i + 1]); i += 1
        elif a == "--show": pass
        i += 1
    if tier not in ("quick", "thorough"): tier = "quick"
    exe = B.build(chk.BUILD)
    tb = time.time() - t0
    chk.setup(exe)
    root = _scratch()
    # run a private copy: a concurrent rebuild cannot disturb the search
    exe2 = os.path.join(root, "armips")
    shutil.copy2(exe, exe2); exe = exe2
    kf = known_findings(chk.ID)
    known = {k["tag"] for k in kf}
    try:
        if replay:
            return do_replay(chk, exe, root, replay)
        if "--show" in argv:
            env = Env(exe, os.path.join(root, "w0"), timeout=chk.TIMEOUT, environ=chk.ENVIRON, limits=chk.LIMITS, unprivileged=chk.UNPRIVILEGED, stack=chk.STACK)
            for i in range(count or 1):
                s = Src(random.Random("%d:%s:%d" % (seed, chk.ID, i)))
                c = chk.gen(s)
                r = chk.render(c)
                print(r if isinstance(r, str) else json.dumps(jsonable(r), indent=1)); print(run_case(chk, c, env)[3], "\n-----")
            return 0
        count = count or (chk.QUICK if tier == "quick" else chk.THOROUGH)
        secs = secs or (chk.QUICK_S if tier == "quick" else chk.THOROUGH_S)
        ctx = multiprocessing.get_context("fork")
        stop = ctx.Event(); q = ctx.Queue()
        deadline = time.time() + secs
        ps = [ctx.Process(target=worker, args=(chk, exe, w, W, seed, count, deadline, stop, q, root, known)) for w in range(W)]
        for p in ps: p.start()
        res = []
        while len(res) < W:
            try:
                res.append(q.get(timeout=5))
            except queue.Empty:
                if not any(p.is_alive() for p in ps) and q.empty():
                    break
        for p in ps: p.join(10)
        if len(res) < W:
            print("ERROR: a worker died"); return 2
        for r in res:
            if r[8]:
                print(r[8]); return 2
        keys = set().union(*[r[3] for r in res])
        samples = [s for r in sorted(res) for s in r[4]][:12]
        evals = sum(r[1] for r in res); cases = sum(r[2] for r in res); runs = sum(r[7] for r in res)
        fails = sorted([r[5] for r in res if r[5]], key=lambda x: x[1])
        violations = 0; out = []
        khits = {}
        for r in res:
            for k, v in r[6].items(): khits[k] = khits.get(k, 0) + v
        env = Env(exe, os.path.join(root, "main"), timeout=chk.TIMEOUT, environ=chk.ENVIRON, limits=chk.LIMITS, unprivileged=chk.UNPRIVILEGED, stack=chk.STACK)
        for f in fails:
            _, idx, rec, exi, spans, msg = f
            path = confirm(chk, env, rec, exi, spans, msg, known, seed)
            if path:
                violations += 1; out.append("VIOLATION property=%s replay=%s" % (chk.ID, path)); break
            else:
                print("note: failure not reproduced, ignored: case %d: %s" % (idx, msg[:500]))
        for k in kf:
            print("KNOWN-FINDING: property=%s %s (hit %d times)" % (chk.ID, k["what"], khits.get(k["tag"], 0)))
        ev = {"property": chk.ID, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(keys), "rule": chk.RULE,
                           "samples": [jsonable(s) for s in samples]},
              "assumptions": list(chk.ASSUMPTIONS) + ["%d programs/cases generated, %d armips executions, build %.1f s" % (cases, runs, tb)],
              "wall_s": round(time.time() - t0, 2), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", chk.ID + ".json"), "w") as fo: json.dump(ev, fo, indent=1, ensure_ascii=False)
        print("%s %s seed=%d: %d cases, %d evaluations, %d distinct non-trivial, %d runs, build %.1fs, total %.1fs" %
              (chk.ID, tier, seed, cases, evals, len(keys), runs, tb, time.time() - t0))
        for o in out: print(o)
        sys.stdout.flush()
        return 1 if violations else 0
    finally:
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)

def confirm(chk, env, rec, exi, spans, msg, known, seed):
    if rec is None:
        case = chk.explicit()[exi]
        for _ in range(3):
            f = run_case(chk, case, env)[3]
            if f is None: return None
        doc = {"property": chk.ID, "explicit": exi, "message": f.msg, "case": jsonable(chk.render(case))}
    else:
        b = shrink(chk, rec, spans, env, known, 25 if os.environ.get("VERIF_TIER", "quick") == "quick" else 120)
        if b is None: return None
        rec2 = b[0]
        for r in (rec2, rec):
            ok = True
            for _ in range(3):
                case = chk.gen(Src(pre=r)); f = run_case(chk, case, env)[3]
                if f is None: ok = False; break
            if ok: break
        if not ok: return None
        doc = {"property": chk.ID, "choices": r, "original_choices": rec, "seed": seed, "message": f.msg, "case": jsonable(chk.render(case))}
    d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
    for k in ("choices", "original_choices"):
        if k in doc: doc[k] = " ".join(map(str, doc[k]))
    txt = json.dumps(doc, indent=1, ensure_ascii=False)
    path = os.path.join(d, "%s-%s.json" % (chk.ID, hashlib.sha1(txt.encode("utf-8", "replace")).hexdigest()[:10]))
    with open(path, "w", errors="replace") as fo: fo.write(txt)
    c = doc["case"]
    print("---- %s violated ----\n%s\n%s" % (chk.ID, f.msg[:3000], (c if isinstance(c, str) else json.dumps(c, indent=1, ensure_ascii=False))[:3000]))
    return path

def do_replay(chk, exe, root, path):
    doc = json.load(open(path))
    env = Env(exe, os.path.join(root, "main"), timeout=chk.TIMEOUT, environ=chk.ENVIRON, limits=chk.LIMITS, unprivileged=chk.UNPRIVILEGED, stack=chk.STACK)
    case = chk.explicit()[doc["explicit"]] if "explicit" in doc else chk.gen(Src(pre=[int(x) for x in doc["choices"].split()]))
    f = run_case(chk, case, env)[3]
    if f is None:
        print("replay: property held"); return 0
    print(f.msg); print("VIOLATION property=%s replay=%s" % (chk.ID, path)); return 1
