"""Shared machinery of the checks: scratch trees, builds, verdicts, evidence.

Every check is one Python file in /verif/checks that creates a Check, runs
workloads against programs built from a scratch copy of /repo's working tree,
and reports through Check.violation / Check.finish.

Verdicts: exit 0 = held on everything explored, exit 1 + VIOLATION line =
a violation that known_findings.json does not list, exit 2 = the check could
not decide (build failed, monitor observed nothing, inconclusive runs).
"""
import atexit, concurrent.futures, hashlib, json, os, random, re, shutil, signal
import subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VK_REPO", "/repo")
NPROC = os.cpu_count() or 4


class HarnessError(Exception):
    pass


def base_env():
    """A small fixed environment: nothing of the caller leaks into a run."""
    e = {
        "HOME": "/root",
        "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "LANG": "C.UTF-8",
        "GUILE_AUTO_COMPILE": "0",
        "GUILE_LOAD_PATH": "/usr/share/guile/3.0:/usr/share/guile/site/3.0",
        "V": "0",
        "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    }
    return e


class Result:
    __slots__ = ("rc", "out", "err", "timeout", "cmd")

    def __init__(self, rc, out, err, timeout, cmd):
        self.rc, self.out, self.err, self.timeout, self.cmd = rc, out, err, timeout, cmd


def _limits(mem_mb, fsize_mb, stack_mb):
    import resource

    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem_mb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        if fsize_mb:
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize_mb << 20, fsize_mb << 20))
        if stack_mb:
            resource.setrlimit(resource.RLIMIT_STACK, (stack_mb << 20, stack_mb << 20))
    return f


def run(cmd, timeout=60, env=None, cwd=None, input=None, mem_mb=None, fsize_mb=256, stack_mb=None,
        merge=False, retry_timeout=True):
    """Run a command in its own session; kill the whole session on time-out.

    The time-out is a watchdog, never a verdict: callers treat timeout=True as
    inconclusive unless they bound the work in logical steps themselves.  A
    run that times out is repeated once."""
    for attempt in (0, 1):
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT if merge else subprocess.PIPE,
                             env=env if env is not None else base_env(), cwd=cwd,
                             preexec_fn=_limits(mem_mb, fsize_mb, stack_mb))
        try:
            out, err = p.communicate(input, timeout=timeout)
            to = False
        except subprocess.TimeoutExpired:
            to = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            out, err = p.communicate()
        if not to or not retry_timeout:
            break
    return Result(p.returncode, out, err or b"", to, cmd)


class Check:
    def __init__(self, pid, level="exploration"):
        self.pid = pid
        self.level = level
        tier = None
        for a in sys.argv[1:]:
            if a in ("quick", "thorough"):
                tier = a
        self.tier = tier or os.environ.get("VERIF_TIER") or "quick"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = int(hashlib.sha1(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.evals = 0
        self.sigs = set()
        self.counts = {}
        self.samples = []
        self.viol = {}          # key -> [detail, replay-object]
        self.nviol = 0
        self.known_seen = {}
        self.inconclusive = []
        self.rule = ""
        self.assumptions = []
        self.extra = {}
        self._tree = None
        self.keep = bool(os.environ.get("VK_KEEP"))
        self.scratch = tempfile.mkdtemp(prefix="vk-%s-" % pid.lower(), dir=os.environ.get("VK_TMP", "/tmp"))
        os.chmod(self.scratch, 0o755)
        atexit.register(self._cleanup)
        signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
        self.known = self._load_known()
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        self.evfile = os.path.join(ev, pid + ".json")
        try:
            os.unlink(self.evfile)
        except OSError:
            pass
        self.repdir = os.path.join(ev, "replay", pid)
        shutil.rmtree(self.repdir, ignore_errors=True)

    # ---------------------------------------------------------------- scale
    def n(self, quick, thorough=None):
        v = quick if self.tier == "quick" else (thorough if thorough is not None else quick * 10)
        s = os.environ.get("VK_SCALE")
        return max(1, int(v * float(s))) if s else v

    # -------------------------------------------------------------- cleanup
    def _cleanup(self):
        if not self.keep:
            shutil.rmtree(self.scratch, ignore_errors=True)
        else:
            sys.stderr.write("kept %s\n" % self.scratch)

    def dir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    # ------------------------------------------------------------ accounting
    def _load_known(self):
        f = os.path.join(VERIF, "known_findings.json")
        out = {}
        if os.path.exists(f):
            for k in json.load(open(f))["findings"]:
                if k["property"] == self.pid:
                    out[k["key"]] = k
        return out

    def count(self, name, n=1):
        with self.lock:
            self.counts[name] = self.counts.get(name, 0) + n

    def case(self, sig=None, n=1):
        """Account one evaluated case; sig identifies a distinct non-trivial one."""
        with self.lock:
            self.evals += n
            if sig is not None:
                self.sigs.add(sig if isinstance(sig, (str, int, tuple)) else repr(sig))

    def sample(self, s, limit=8):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(s if not isinstance(s, bytes) else s.decode("latin1"))

    def violation(self, key, detail, replay=None):
        """Record one violation. `key` names the specific input/call site/history class."""
        with self.lock:
            if key in self.known:
                self.known_seen[key] = self.known_seen.get(key, 0) + 1
                return
            self.nviol += 1
            if key not in self.viol:
                self.viol[key] = [detail, replay]

    def unsure(self, what):
        with self.lock:
            self.inconclusive.append(what)

    # --------------------------------------------------------------- verdict
    def finish(self, rule, min_events=None, max_inconclusive=0.02):
        wall = time.time() - self.t0
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.sigs), rule=rule,
                   samples=self.samples or ["(none)"], observed=dict(sorted(self.counts.items())),
                   inconclusive=len(self.inconclusive), known_findings_seen=self.known_seen)
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=self.nviol)
        tmp = self.evfile + ".tmp"
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
            f.write("\n")
        os.replace(tmp, self.evfile)
        for k in sorted(self.known_seen):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]["what"]))
        rc = 0
        if self.viol:
            os.makedirs(self.repdir, exist_ok=True)
            for i, (k, (detail, replay)) in enumerate(sorted(self.viol.items())):
                path = os.path.join(self.repdir, "%03d.json" % i)
                with open(path, "w") as f:
                    json.dump(dict(property=self.pid, key=k, detail=detail, replay=replay,
                                   seed=self.seed, tier=self.tier), f, indent=1, default=str)
                    f.write("\n")
                if i < 20:
                    print("VIOLATION property=%s replay=%s" % (self.pid, path))
                    print("  key=%s" % k)
                    for line in str(detail).splitlines()[:12]:
                        print("  " + line[:300])
            rc = 1
        else:
            problems = []
            if self.evals == 0:
                problems.append("nothing was observed")
            for name, least in (min_events or {}).items():
                if self.counts.get(name, 0) < least:
                    problems.append("only %d %s events, need %d" % (self.counts.get(name, 0), name, least))
            if len(self.inconclusive) > max(2, max_inconclusive * max(1, self.evals)):
                problems.append("%d inconclusive runs, e.g. %s" % (len(self.inconclusive), self.inconclusive[0]))
            if problems:
                print("INCONCLUSIVE property=%s %s" % (self.pid, "; ".join(problems)))
                rc = 2
        print("%s %s seed=%d: %d evaluations, %d distinct, %d violations, %d known, %d inconclusive, %.1fs"
              % (self.pid, self.tier, self.seed, self.evals, len(self.sigs), self.nviol,
                 sum(self.known_seen.values()), len(self.inconclusive), wall))
        sys.stdout.flush()
        self._cleanup()
        os._exit(rc)

    # ------------------------------------------------------------ scratch tree
    def tree(self):
        """A private copy of /repo's working tree, configured for gcc/x86_64."""
        if self._tree:
            return self._tree
        t = os.path.join(self.scratch, "tree")
        os.makedirs(t)
        r = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-co", "--exclude-standard", "-z"],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        names = [n for n in r.stdout.decode("utf-8", "surrogateescape").split("\0") if n] if r.returncode == 0 else []
        if not names:
            for root, ds, fs in os.walk(REPO):
                ds[:] = [d for d in ds if d not in (".git", "_vp", "bin", "gcc-lib", "mescc-lib")]
                for f in fs:
                    names.append(os.path.relpath(os.path.join(root, f), REPO))
        skip = re.compile(r"\.(o|go)$|^(_vp|bin|gcc-lib|mescc-lib)/")
        for n in names:
            src = os.path.join(REPO, n)
            if skip.search(n) or not os.path.lexists(src):
                continue
            dst = os.path.join(t, n)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            if os.path.islink(src):
                os.symlink(os.readlink(src), dst)
            elif os.path.isfile(src):
                shutil.copy2(src, dst)
        r = run(["./configure", "CC=gcc", "CFLAGS=-fno-stack-protector"], cwd=t, timeout=300, merge=True)
        if r.rc != 0 or not os.path.exists(os.path.join(t, "config.sh")):
            raise HarnessError("configure failed:\n" + r.out.decode("utf-8", "replace")[-2000:])
        self._tree = t
        return t

    def sources(self, compiler="gcc", cpu="x86_64", libc="mes"):
        """Source lists of the project's own build (build-aux/configure-lib.sh)."""
        t = self.tree()
        sh = ("set +u; mes_libc=%s mes_kernel=linux mes_cpu=%s compiler=%s srcdest=; "
              "eval \"$(sed -n '/^libc_mini_shared/,$p' build-aux/configure-lib.sh)\"; "
              "for v in libc_mini libmescc libmes libc libtcc1 libc_tcc libc_gnu mes; do "
              "eval \"echo $v \\$${v}_SOURCES\"; done" % (libc, cpu, compiler))
        r = run(["bash", "-c", sh], cwd=t)
        d = {}
        for line in r.out.decode().splitlines():
            w = line.split()
            if w:
                d[w[0]] = list(dict.fromkeys(w[1:]))
        if "libc_gnu" not in d:
            raise HarnessError("cannot read source lists: " + r.err.decode())
        return d

    def pmap(self, fn, items, workers=NPROC):
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            return list(ex.map(fn, items))


def main(fn):
    """Entry point: harness failures are errors of the check (exit 2)."""
    try:
        fn()
    except HarnessError as e:
        print("ERROR harness: %s" % e)
        sys.stdout.flush()
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        sys.stderr.flush()
        sys.exit(2)
