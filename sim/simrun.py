"""Running simulated executions: fork servers, plans, logs and replay files."""
import os, sys, re, json, shutil, subprocess, threading, queue, time, signal, resource

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as builder

BUILD = builder.BUILD
CAP = int(os.environ.get("VSIM_WALL", "60"))      # wall-clock cap of one run, seconds


def _limits():
    soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
    want = 1 << 30
    if hard != resource.RLIM_INFINITY:
        want = min(want, hard)
    resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()


class Result:
    """One finished simulated run."""
    __slots__ = ("status", "out", "err", "log", "dir", "end", "fires", "counts", "hash", "steps", "vtime", "how", "code", "timeout", "wlogs")

    def sections(self, which="out"):
        """Output of each script line: {line number: text}."""
        txt = self.out if which == "out" else self.err
        parts = re.split(r"\n@@(\d+)@@\n", txt)
        d = {0: parts[0]}
        for i in range(1, len(parts), 2):
            d[int(parts[i])] = parts[i + 1]
        return d

    def lines(self, n, which="out"):
        return self.sections(which).get(n, "")


def clean(b, rundir, outdir):
    return b.decode("latin-1").replace(rundir, "/sim").replace(outdir, "/voss")


def parse(rundir, outdir, status, timeout):
    r = Result()
    r.status, r.dir, r.timeout = status, rundir, timeout
    rd = lambda f: open(os.path.join(rundir, f), "rb").read() if os.path.exists(os.path.join(rundir, f)) else b""
    r.out, r.err = clean(rd("out"), rundir, outdir), clean(rd("err"), rundir, outdir)
    r.log = clean(rd("log"), rundir, outdir)
    r.wlogs = {}
    for f in sorted(os.listdir(rundir)):
        if re.fullmatch(r"wlog\d+", f):
            r.wlogs[int(f[4:])] = clean(rd(f), rundir, outdir)
    r.fires, r.counts = [], {}
    for who, text in [(0, r.log)] + sorted(r.wlogs.items()):
        for m in re.finditer(r"^FIRE (\S+) (\d+):(-?\d+)$", text, re.M):
            r.fires.append((who, m.group(1), int(m.group(2)), int(m.group(3))))
        for m in re.finditer(r"^COUNT (\S+) (\d+) (\d+)$", text, re.M):
            c = r.counts.setdefault(m.group(1), [0, 0])
            c[0] += int(m.group(2)); c[1] += int(m.group(3))
    m = re.search(r"^END (\S+) (-?\d+) steps (\d+) vtime_ns (\d+) hash (\S+)$", r.log, re.M)
    if m:
        r.how, r.code, r.steps, r.vtime, r.hash = m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4)), m.group(5)
    else:
        r.how, r.code, r.steps, r.vtime, r.hash = "none", -1, 0, 0, "none"
    r.hash += "".join(re.search(r"hash (\S+)$", w, re.M).group(1) if re.search(r"hash (\S+)$", w, re.M) else "-" for _, w in sorted(r.wlogs.items()))
    if timeout:
        r.how = "timeout"
    return r


class Server:
    """A simfl process that has loaded its start-up code and forks per run."""

    def __init__(self, outdir, args, home_files=None, tag="s", env=None):
        self.outdir, self.args, self.home_files, self.env = outdir, list(args), home_files or {}, env or {}
        self.base = os.path.join(BUILD, "run", "%d-%s" % (os.getpid(), tag))
        shutil.rmtree(self.base, ignore_errors=True)
        os.makedirs(self.base)
        self.n = 0
        self.p = None
        self.start()

    def start(self):
        home = os.path.join(self.base, "home")
        os.makedirs(home, exist_ok=True)
        for f, t in self.home_files.items():
            open(os.path.join(home, f), "w").write(t)
        ri, wi = os.pipe()
        ro, wo = os.pipe()
        env = {"HOME": home, "USER": "root", "LANG": "C.UTF-8", "LC_ALL": "C", "PATH": self.outdir + "/bin:/usr/local/bin:/usr/bin:/bin",
               "VSIM_CTL": "%d,%d" % (ri, wo), "VSIM_OUT": self.outdir, "TERM": "dumb"}
        if "VSIM_BT" in os.environ:
            env["VSIM_BT"] = "1"
        env.update(self.env)
        env = {k: v for k, v in env.items() if v is not None}
        self.boot = open(os.path.join(self.base, "boot"), "wb")
        self.p = subprocess.Popen([self.outdir + "/bin/simfl"] + self.args, stdin=subprocess.DEVNULL, stdout=self.boot, stderr=self.boot,
                                  cwd=home, env=env, pass_fds=(ri, wo), preexec_fn=_limits)
        os.close(ri); os.close(wo)
        self.wi = os.fdopen(wi, "w", buffering=1)
        self.ro = os.fdopen(ro, "rb", buffering=0)
        t = threading.Timer(120, self.p.kill); t.start()
        l = self.ro.readline()
        t.cancel()
        if l != b"READY\n":
            self.p.kill(); self.p.wait()
            raise BootError(open(os.path.join(self.base, "boot"), "rb").read().decode("latin-1")[-3000:])

    def boot_output(self):
        return open(os.path.join(self.base, "boot"), "rb").read().decode("latin-1")

    def stop(self):
        if self.p:
            try:
                self.wi.close()
            except Exception:
                pass
            try:
                self.p.wait(5)
            except Exception:
                self.p.kill(); self.p.wait()
            self.ro.close()
            self.p = None
        shutil.rmtree(self.base, ignore_errors=True)

    def run(self, script, plan, files=None, cap=None, keep=False, dir=None):
        """script: list of lines. plan: dict. files: {name: bytes}."""
        self.n += 1
        d = dir or os.path.join(self.base, "r%06d" % self.n)
        os.makedirs(d, exist_ok=True)
        for f, t in (files or {}).items():
            p = os.path.join(d, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "wb").write(t if isinstance(t, bytes) else t.encode())
        open(d + "/script", "w").write("\n".join(script) + "\n")
        open(d + "/plan", "w").write("".join("%s %s\n" % kv for kv in plan.items()))
        self.wi.write("RUN %s\n" % d)
        l = self.ro.readline().split()
        pid = int(l[1])
        timed = []

        def onto():
            timed.append(1)
            try:
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        t = threading.Timer(cap or CAP, onto); t.start()
        l = self.ro.readline().split()
        t.cancel()
        if not l:
            raise RuntimeError("fork server died")
        r = parse(d, self.outdir, int(l[1]), bool(timed))
        if not keep and dir is None:
            shutil.rmtree(d, ignore_errors=True)
        return r


class BootError(Exception):
    pass
