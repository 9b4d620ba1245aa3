"""The search: seeds -> cases -> simulated runs -> oracles -> (minimised) violations.

A case is JSON: phases, each a list of script items run by one simulated
process, all in the same simulated disk directory (what one phase leaves on
disk is what the next one finds). An item is {"id", "t": text, "exp": ...}.
"""
import os, sys, re, json, time, random, hashlib, shutil, subprocess, traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import simrun, flgen

VERIF = os.path.dirname(HERE)
NPROC = int(os.environ.get("VSIM_PROCS", str(min(8, os.cpu_count() or 1))))

# Server configurations: command line options and preference files.
CONFIGS = {}


def config(name, args, home=None, env=None, lean=False):
    e = {"VSIM_BOOTGC": "2000"} if lean else {}
    e.update(env or {})
    CONFIGS[name] = (args, home or {}, e, lean)


config("s12", ["-noX", "-q", "-s", "12"])
config("s14", ["-noX", "-q", "-s", "14"])
config("s20", ["-noX", "-q"])
config("gui", ["-q", "-s", "12"], env={"VSIM_GUI": "1"}, lean=True)
config("lean", ["-noX", "-q", "-s", "12"], lean=True)
config("nouser", ["-noX", "-q", "-s", "12"], env={"USER": None}, lean=True)


def jt(t):
    return list(t) if not isinstance(t, (list, tuple)) else [jt(x) if isinstance(x, (list, tuple)) else x for x in t]


def tt(t):
    return tuple(tt(x) if isinstance(x, list) else x for x in t) if isinstance(t, list) else t


def jv(v):
    """Value -> JSON."""
    if isinstance(v, flgen.Tt):
        return {"tt": format(v.m, "x")}
    if isinstance(v, tuple):
        return {"p": [jv(x) for x in v]}
    if isinstance(v, list):
        return [jv(x) for x in v]
    if isinstance(v, int):
        return {"i": str(v)}
    return v


def vj(v):
    if isinstance(v, dict):
        if "tt" in v:
            return flgen.Tt(int(v["tt"], 16))
        if "p" in v:
            return tuple(vj(x) for x in v["p"])
        return int(v["i"])
    if isinstance(v, list):
        return [vj(x) for x in v]
    return v


def shown(t, v):
    return ["shown", jt(t) if not isinstance(t, str) else t, jv(v)]


def strip_prompt(s):
    while s.endswith(": "):
        s = s[:-2]
    return s


def check_exp(exp, out, err):
    """None or a description of the mismatch."""
    k = exp[0]
    if k == "shown":
        m = flgen.check_shown(tt(exp[1]), vj(exp[2]), out)
        return m and "%s; output %r; messages %r" % (m, out[:300], err[:200])
    o = strip_prompt(out)
    if k == "text":
        return None if o.rstrip("\n") == exp[1].rstrip("\n") else "expected output %r, got %r; messages %r" % (exp[1][:300], o[:300], err[:200])
    if k == "re":
        return None if re.fullmatch(exp[1], o.rstrip("\n"), re.S) else "output %r does not match %r; messages %r" % (o[:300], exp[1][:200], err[:200])
    if k == "oneof":
        return None if o.rstrip("\n") in [x.rstrip("\n") for x in exp[1]] else "output %r is none of %r; messages %r" % (o[:300], exp[1], err[:200])
    if k == "err":
        return None if re.search(exp[1], err + out, re.S) else "no message matching %r: %r %r" % (exp[1], o[:200], err[:300])
    if k == "valor":      # the value, or this failure
        m = check_exp(exp[1], out, err)
        return None if m is None or re.search(exp[2], err + out, re.S) else m
    if k == "anyof":
        ms = [check_exp(x, out, err) for x in exp[1]]
        return None if None in ms else " / ".join(ms)
    if k == "quiet":      # a definition: nothing but its type is printed
        return None if "Failure" not in err and "error" not in err else "unexpected message %r" % err[:300]
    return EXPS[k](exp, out, err)


ORACLES, EXPS = {}, {}


def oracle(f):
    ORACLES[f.__name__] = f
    return f


CLEAN_EXIT = ("exit",)


@oracle
def expect_items(case, results):
    """Every item prints what it must; the session ends normally."""
    bad = []
    for ph, r in zip(case["phases"], results):
        sec, err = r.sections("out"), r.sections("err")
        if r.how == "timeout":
            bad.append(("hang", "no progress: run stopped after the wall-clock cap"))
            return bad
        if r.how != "exit" or (r.status != 0 and not ph.get("any_status")):
            tail = (r.err or "")[-300:]
            bad.append(("end:%s:%d" % (r.how, r.code), "session ended with %s %d (status %d): %r" % (r.how, r.code, r.status, tail)))
        ln = ph["line_of"]
        for it in ph["items"]:
            if it.get("exp") is None:
                continue
            n = ln[it["id"]]
            if n not in sec:
                if not bad:
                    bad.append(("item:" + it["id"], "statement never ran: %s" % it["t"][:200]))
                continue
            m = check_exp(it["exp"], sec[n], err.get(n, ""))
            if m:
                bad.append(("item:" + it["id"], "%s: %s" % (it["t"][:300], m)))
    return bad


class Runner:
    def __init__(self, tag):
        self.out = simrun.builder.build()
        self.servers, self.tag = {}, tag
        self.runs = 0

    def server(self, cfg):
        s = self.servers.get(cfg)
        if s is None:
            a, h, e, lean = CONFIGS[cfg]
            tag = "%s-%s" % (self.tag, cfg)
            if lean:
                # If the small start-up file does not load cleanly on this tree, use the full one.
                try:
                    s = simrun.Server(self.out + "/lean", a, h, tag=tag, env=e)
                    if re.search(r"rror|Cannot find|not defined", s.boot_output()):
                        s.stop()
                        s = None
                except simrun.BootError:
                    s = None
            if s is None:
                s = simrun.Server(self.out, a, h, tag=tag, env=e)
            self.servers[cfg] = s
        return s

    def close(self):
        for s in self.servers.values():
            s.stop()
        self.servers = {}

    def run(self, case, cap=None):
        """Runs all phases in one directory."""
        results = []
        s0 = self.server(case["phases"][0]["config"])
        s0.n += 1
        d = os.path.join(s0.base, "c%06d" % s0.n)
        os.makedirs(d)
        try:
            for i, ph in enumerate(case["phases"]):
                if i:
                    between = ph.get("between")
                    if between:
                        BETWEEN[between[0]](d, *between[1:])
                lines, lo = [], {}
                for it in ph["items"]:
                    for l in it["t"].split("\n"):
                        lines.append(l)
                    lo[it["id"]] = len(lines)
                ph["line_of"] = lo
                srv = self.server(ph["config"])
                plan = dict(ph["plan"])
                plan.setdefault("seed", case.get("seed", 1))
                for f in os.listdir(d):
                    if re.fullmatch(r"wlog\d+|log|out|err|plan|script", f):
                        os.unlink(os.path.join(d, f))
                r = srv.run(lines, plan, ph.get("files"), cap=cap, dir=d)
                self.runs += 1
                results.append(r)
                if "post" in ph:
                    r.dir = POST[ph["post"]](d, r)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return results

    def judge(self, case, cap=None):
        res = self.run(case, cap)
        bad = ORACLES[case.get("oracle", "expect_items")](case, res)
        if bad and case.get("blame"):
            # A workload of another property: a violation here is what goes
            # wrong only with these faults.
            c = json.loads(json.dumps(case))
            for ph in c["phases"]:
                for k in list(ph["plan"]):
                    if any(k.startswith(b + "_") for b in case["blame"]):
                        del ph["plan"][k]
            if ORACLES[case.get("oracle", "expect_items")](c, self.run(c, cap)):
                bad = []
        return bad, res


BETWEEN, POST = {}, {}


def hashes(results):
    return "/".join(r.hash for r in results)


def explicit(case, results):
    """The same case with every decision listed instead of drawn."""
    c = json.loads(json.dumps(case))
    for ph, r in zip(c["phases"], results):
        plan = ph["plan"]
        kinds = set(re.sub(r"_(rate|start|at)$", "", k) for k in plan if re.search(r"_(rate|start|at)$", k))
        for who, k, n, a in r.fires:
            kinds.add(("w%d_" % who if who else "") + k)
        for k in list(plan):
            if re.search(r"_(rate|start|at|burst|max|colls)$", k):
                del plan[k]
        for k in sorted(kinds):
            base = re.sub(r"^w\d+_", "", k)
            if base in ("worker",) and "worker_" in k:
                continue
            plan[k + "_at"] = ""
        for who, k, n, a in r.fires:
            key = ("w%d_" % who if who else "") + k + "_at"
            plan[key] = (plan.get(key, "") + " %d:%d" % (n, a)).strip()
    return c


def ddmin(xs, test, deadline):
    """Smallest-ish sublist of xs for which test still holds."""
    n = 2
    if xs and time.time() < deadline and test([]):
        return []
    while len(xs) >= 2 and time.time() < deadline:
        size = max(1, len(xs) // n)
        cut = False
        i = 0
        while i < len(xs) and time.time() < deadline:
            ys = xs[:i] + xs[i + size:]
            if len(ys) < len(xs) and test(ys):
                xs, cut = ys, True
                n = max(n - 1, 2)
            else:
                i += size
        if not cut:
            if size == 1:
                break
            n = min(len(xs), n * 2)
    if len(xs) == 1 and time.time() < deadline and test([]):
        return []
    return xs


UNBOUND = re.compile(r"Unidentified identifier|Failed to find type|Unknown type|not defined|missing from the order")


def minimise(runner, case, key, seconds=45, msg=""):
    """Drop faults, then statements, while the same violation remains."""
    deadline = time.time() + seconds
    unbound = bool(UNBOUND.search(msg))

    def no_faults(c):
        c = json.loads(json.dumps(c))
        for ph in c["phases"]:
            for k in ph["plan"]:
                if k.endswith("_at"):
                    ph["plan"][k] = ""
        return c
    try:
        faulty = not any(k == key for k, _ in runner.judge(no_faults(case), cap=20)[0])
    except Exception:
        faulty = False

    def fails(c):
        try:
            bad, _ = runner.judge(c, cap=20)
        except Exception:
            return False
        # Removing a definition must not be mistaken for the violation.
        hit = any(k == key and (unbound or not UNBOUND.search(m)) for k, m in bad)
        if hit and faulty and any(k == key for k, _ in runner.judge(no_faults(c), cap=20)[0]):
            return False         # the cut-down script fails by itself: not what was found
        return hit

    cur = case
    for pi in range(len(cur["phases"])):
        for k in sorted(cur["phases"][pi]["plan"]):
            if not k.endswith("_at"):
                continue

            def with_list(xs, k=k, pi=pi):
                c = json.loads(json.dumps(cur))
                c["phases"][pi]["plan"][k] = " ".join(xs)
                return c
            xs = cur["phases"][pi]["plan"][k].split()
            xs = ddmin(xs, lambda ys: fails(with_list(ys)), min(deadline, time.time() + seconds / 3))
            cur = with_list(xs)
    if not case.get("fixed_items"):
        for pi in range(len(cur["phases"])):
            keep = [it for it in cur["phases"][pi]["items"]]
            free = [it["id"] for it in keep if not it.get("keep")]

            def with_items(ids, pi=pi):
                c = json.loads(json.dumps(cur))
                s = set(ids)
                c["phases"][pi]["items"] = [it for it in c["phases"][pi]["items"] if it.get("keep") or it["id"] in s]
                return c
            # Faults are numbered by opportunity: removing statements moves them, so this only
            # keeps removals under which the violation still shows.
            ids = ddmin(free, lambda ys: fails(with_items(ys)), deadline)
            cur = with_items(ids)
    return cur


class Stats:
    def __init__(self):
        self.runs = self.cases = self.nontrivial = 0
        self.steps = self.vtime = 0
        self.counts, self.wl, self.probes = {}, {}, {}
        self.hashes = set()
        self.samples = []
        self.rechecked = 0
        self.timeouts = 0

    def add(self, case, results):
        self.cases += 1
        self.wl[case["wl"]] = self.wl.get(case["wl"], 0) + 1
        fired = 0
        for r in results:
            self.runs += 1
            self.steps += r.steps
            self.vtime += r.vtime
            for k, (a, b) in r.counts.items():
                c = self.counts.setdefault(k, [0, 0])
                c[0] += a
                c[1] += b
                fired += 0 if k == "collections" else b
        if fired:
            self.nontrivial += 1
            self.hashes.add(hashlib.sha1(hashes(results).encode()).digest()[:8])
        for p in case.get("probe_hits", []):
            self.probes[p] = self.probes.get(p, 0) + 1
        if len(self.samples) < 3 and (fired or self.cases > 50):
            self.samples.append({"workload": case["wl"], "seed": case["seed"],
                                 "script": [it["t"][:160] for it in case["phases"][0]["items"]][:14],
                                 "faults": ["%s%s@%d:%d" % ("worker%d." % w if w else "", k, n, a) for r in results for w, k, n, a in r.fires][:20]})

    def merge(self, o):
        for f in ("runs", "cases", "nontrivial", "steps", "vtime", "rechecked", "timeouts"):
            setattr(self, f, getattr(self, f) + getattr(o, f))
        for k, v in o.counts.items():
            c = self.counts.setdefault(k, [0, 0])
            c[0] += v[0]
            c[1] += v[1]
        for a, b in ((self.wl, o.wl), (self.probes, o.probes)):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        self.hashes |= o.hashes
        if len(self.samples) < 3:
            self.samples += o.samples[:3 - len(self.samples)]


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["open"] if k["property"] == prop]


def is_known(known, case, key, msg):
    for k in known:
        if k.get("workload") not in (None, case["wl"]):
            continue
        if re.search(k["match"], key + " " + msg, re.S):
            return k["id"]
    return None


def gen_case(prop, gens, base_seed, i):
    rng = random.Random("%s/%s/%d" % (base_seed, prop, i))
    once = [g for g, w in gens if w == 0]
    names = [g for g, w in gens for _ in range(w)]
    g = once[i] if i < len(once) else names[i % len(names)] if i < 4 * len(names) else rng.choice(names)
    case = g(rng)
    case["seed"] = (base_seed * 1000003 + i) & 0x7fffffff
    case.setdefault("wl", g.__name__)
    for ph in case["phases"]:
        ph["plan"].setdefault("seed", case["seed"])
    return case


def worker(prop, gens, base_seed, w, nw, deadline, max_cases, q, stop, outq):
    st = Stats()
    known = known_findings(prop)
    rn = None
    try:
        rn = Runner("%s-%d" % (prop, w))
        i = w
        while time.time() < deadline and not stop.is_set() and i < max_cases:
            case = gen_case(prop, gens, base_seed, i)
            bad, res = rn.judge(case)
            for r in res:
                if r.how == "timeout":
                    st.timeouts += 1
            unknown = [b for b in bad if not is_known(known, case, *b)]
            st.add(case, res)
            if not unknown and (i // nw) % 40 == 7:
                # determinism self-check: the same seed again, same event log
                bad2, res2 = rn.judge(case)
                st.rechecked += 1
                if hashes(res2) != hashes(res) and not any(r.how == "timeout" for r in res + res2):
                    q.put(("error", "seed %d of %s is not deterministic (%s / %s)" % (i, case["wl"], hashes(res), hashes(res2))))
                    break
            if unknown:
                stop.set()
                q.put(("bad", i, unknown[0][0], unknown[0][1]))
                break
            i += nw
    except Exception:
        q.put(("error", traceback.format_exc()))
        stop.set()
    finally:
        if rn:
            rn.close()
        outq.put(st)


def search(prop, gens, seconds, tier, base_seed, rule, components, max_cases=10**9, level="exploration", extra=None, directed=()):
    """Returns the exit status after printing the verdict and writing the evidence."""
    t0 = time.time()
    simrun.builder.build()
    tb = time.time() - t0
    q, outq, stop = mp.Queue(), mp.Queue(), mp.Event()
    deadline = time.time() + seconds
    ps = [mp.Process(target=worker, args=(prop, gens, base_seed, w, NPROC, deadline, max_cases, q, stop, outq)) for w in range(NPROC)]
    for p in ps:
        p.start()
    st = Stats()
    msgs = []
    for _ in ps:
        st.merge(outq.get(timeout=seconds + 600))
    while not q.empty():
        msgs.append(q.get())
    time.sleep(0.05)
    while not q.empty():
        msgs.append(q.get())
    for p in ps:
        p.join(20)
    known = known_findings(prop)
    code, nviol = 0, 0
    errors = [m for m in msgs if m[0] == "error"]
    bads = sorted(m for m in msgs if m[0] == "bad")
    if bads:
        code = confirm(prop, gens, base_seed, bads[0][1])
        nviol = 1 if code == 1 else 0
    if errors and code == 0:
        print("CHECK ERROR: " + errors[0][1])
        code = 2
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    wall = time.time() - t0
    hours = max(wall - tb, 1e-3) / 3600
    cov = {
        "evaluations": st.runs,
        "distinct_nontrivial": len(st.hashes),
        "rule": rule,
        "samples": st.samples,
        "cases_by_workload": st.wl,
        "cases": st.cases,
        "runs_with_at_least_one_injected_event": st.nontrivial,
        "simulated_runs_per_hour": int(st.runs / hours),
        "seeds_per_hour": int(st.cases / hours),
        "simulated_time_s": round(st.vtime / 1e9, 3),
        "simulation_steps": st.steps,
        "faults_injected": {k: v[1] for k, v in sorted(st.counts.items())},
        "fault_opportunities": {k: v[0] for k, v in sorted(st.counts.items())},
        "distinct_interleavings": {"count": len(st.hashes), "measure": "distinct event-log hashes among cases in which at least one injected event fired (the log records every statement with its step count, every injected event with its opportunity number, and every file, process and timer operation)"},
        "same_seed_reruns_identical": st.rechecked,
        "wall_clock_capped_runs": st.timeouts,
        "components": components,
        "build_s": round(tb, 1),
    }
    if extra:
        cov.update(extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({"property": prop, "tier": tier, "seed": base_seed, "level": level, "coverage": cov,
               "assumptions": ["fl is compiled with -DVOSS_SIM from the current tree; the hooks only make legal events happen earlier",
                               "the Python models in /verif/sim are right", "sampling: schedules not drawn are not covered"],
               "wall_s": round(wall, 2), "violations": nviol},
              open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d cases, %d runs, %d distinct faulted interleavings, %.0f s; injected %s" %
          (prop, st.cases, st.runs, len(st.hashes), wall, {k: v[1] for k, v in sorted(st.counts.items()) if v[1]}))
    return code


def write_replay(prop, case, key, msg):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (prop, case["seed"]))
    json.dump({"property": prop, "violation": key, "message": msg, "case": case}, open(p, "w"), indent=1)
    return p


def confirm(prop, gens, base_seed, i):
    """Same seed twice, then minimise, then replay in a fresh process."""
    case = gen_case(prop, gens, base_seed, i)
    known = known_findings(prop)
    rn = Runner("%s-confirm" % prop)
    try:
        b1, r1 = rn.judge(case)
        b2, r2 = rn.judge(case)
        b1 = [b for b in b1 if not is_known(known, case, *b)]
        b2 = [b for b in b2 if not is_known(known, case, *b)]
        if not b1 or [k for k, _ in b1] != [k for k, _ in b2] or (hashes(r1) != hashes(r2) and not any(r.how == "timeout" for r in r1)):
            print("CHECK ERROR: violation of seed %d does not repeat: %r / %r (%s / %s)" % (i, b1, b2, hashes(r1), hashes(r2)))
            return 2
        key, msg = b1[0]
        ex = explicit(case, r1)
        b3, r3 = rn.judge(ex)
        best = case
        if any(k == key for k, _ in b3):
            best = minimise(rn, ex, key, msg=msg)
        bf, rf = rn.judge(best)
        m2 = [m for k, m in bf if k == key]
        if not m2:
            best, m2 = case, [msg]
            bf, rf = rn.judge(best)
        best["expect_hash"] = hashes(rf)
        path = write_replay(prop, best, key, m2[0])
    finally:
        rn.close()
    p = subprocess.run([sys.executable, os.path.join(HERE, "replay.py"), path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 1:
        print("CHECK ERROR: replay of %s in a fresh process did not fail the same way:\n%s" % (path, p.stdout.decode()[-2000:]))
        return 2
    print("violation: %s" % m2[0][:1500])
    print("faults: %s" % {k: v for ph in best["phases"] for k, v in ph["plan"].items() if k.endswith("_at") and v})
    for ph in best["phases"]:
        for it in ph["items"]:
            print("  | " + it["t"][:300])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1
