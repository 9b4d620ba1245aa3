"""The registry: which workloads, faults and oracles decide which property."""
import os, sys, random
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "wl"))
import framework as fw
import session as ses
import bdd
import intr
import fail
import fileio
import load
import store
import procs
import para
import sat
import ste
import gui

PROPS = {}


def prop(pid, gens, rule, real, stub, quick=60, thorough=1200, level="exploration"):
    PROPS[pid] = dict(gens=gens, rule=rule, real=real, stub=stub, quick=quick, thorough=thorough, level=level)


def foreign(gen, *kinds):
    """A workload of another property, in which only what these faults change counts."""
    def f(r):
        c = gen(r)
        c["blame"] = list(kinds)
        return c
    f.__name__ = gen.__name__
    return f


FL_CORE = "fl: lexer, parser, type checker, compiler, graph reducer, garbage collector, symbol table, built-in functions, start-up code"
BDD_REAL = "BDD package (unique tables, operation caches, reference-count collection, dynamic ordering)"
STUB = ["Tcl/Tk (gui.c stub)", "terminal (scripted user)", "clocks and timers (virtual)", "allocation of temporary names (counter)"]


# ------------------------------------------------------------- fault plans
def gc_plan(r, heavy=1.0):
    """When the evaluator's collector runs: evenly or in a window."""
    k = r.random()
    n = int(r.choice([15, 60, 120]) * heavy)
    if k < .4:
        return {"gc_rate": r.choice([60, 120, 250, 500, 1000, 2500]), "gc_colls": n}
    if k < .85:
        # every safe point inside one window
        return {"gc_start": int(2 ** r.uniform(3, 15)), "gc_burst": 10 ** 9, "gc_colls": n}
    return {"gc_rate": r.choice([3000, 10000]), "gc_burst": r.choice([20, 200]), "gc_colls": n}


def bgc_plan(r, reorder=.3):
    p = {"bgc_rate": r.choice([1, 3, 10, 40]), "bgc_max": r.choice([5, 40, 200])}
    if r.random() < reorder:
        p["reord_rate"] = r.choice([1, 2, 4])
        p["reord_max"] = r.choice([3, 20])
    return p


def lean(r, p=.85):
    return "lean" if r.random() < p else "s12"


def one(items, cfg, plan, **kw):
    c = {"phases": [{"config": cfg, "plan": plan, "items": items}]}
    c.update(kw)
    return c


# ---------------------------------------------------- C01 GC transparency
def gc_session(r):
    s = ses.session(r)
    p = gc_plan(r)
    if r.random() < .3:
        p.update(bgc_plan(r))
    return one(s.items, lean(r), p)


def gc_eval(r):
    """One deep expression after another, nothing held."""
    s = ses.Sess(r)
    for _ in range(r.randint(4, 10)):
        t, x, v = s.value(d=r.choice([3, 4, 5]))
        s.show(x, t, v)
    s.add("quit;", None, keep=True)
    p = gc_plan(r)
    if r.random() < .3:
        p.update(bgc_plan(r))
    return one(s.items, lean(r), p)


prop("C01", [(gc_session, 3), (gc_eval, 2)],
     "A case counts when at least one garbage collection was forced at a point the seed chose; distinct by event-log hash.",
     [FL_CORE, BDD_REAL], STUB)


# ------------------------------------------------------------- C02 BDDs
def bdd_ops(r):
    s = bdd.bdd_session(r)
    p = bgc_plan(r, .8)
    p.update(gc_plan(r))
    return one(s.items, lean(r), p, oracle="bdd_items", names=s.m.names)


def bdd_known(r):
    """A shared lazy value first demanded under a symbolic condition (known finding)."""
    s = bdd.BSess(r)
    s.keep("#disarm", "dis")
    a, b, c = r.sample(range(s.n), 3)
    m = s.m
    A, B, C = (s.V(i) for i in (a, b, c))
    s.add("let kc = %s;" % A, ["quiet"])
    s.add("let ks = IF kc THEN (NOT %s) ELSE %s;" % (B, C), ["quiet"])
    s.add("let kt = IF kc THEN T ELSE ks;", ["quiet"])
    va, vb, vc = m.v[a], m.v[b], m.v[c]
    F = m.full
    vs = (va & ~vb & F) | (~va & F & vc)
    s.add("show_line (dumpb kt);", ["bdump", format(va | (~va & F & vs), "x")])
    s.items.append({"id": "pathcond", "t": "show_line (dumpb ks);", "exp": ["bdump", format(vs, "x")], "keep": True})
    s.keep("quit;", "quit")
    return one(s.items, "lean", {}, oracle="bdd_items", names=s.m.names)


prop("C02", [(bdd_ops, 1), (bdd_known, 0)],
     "A case counts when at least one forced BDD collection, reordering or evaluator collection fired; distinct by event-log hash.",
     [FL_CORE, BDD_REAL], STUB)


# ------------------------------------------------------- C03 interrupts
def intr_plan(r, ans=None):
    """Where the user presses ^C, and what is answered."""
    k = r.random()
    if k < .5:
        p = {"intr_rate": r.choice([2, 5, 20, 60]), "intr_max": r.choice([3, 12, 40])}
    else:
        p = {"intr_start": int(2 ** r.uniform(2, 13)), "intr_burst": r.choice([1, 3, 30]), "intr_max": r.choice([1, 3, 30])}
    p["intr_answer"] = ans or r.choice(["r", "r", "c", "cr", "crs", "sc", "sr"])
    p["reorder_answer"] = r.choice(["c", "q", "cq"])
    return p


def intr_session(r):
    s = ses.session(r)
    s.items.pop()
    s.add("#disarm", None, keep=True)
    for p in s.probes:
        for _ in range(2):
            q = p()
            if q:
                s.show(*q)
    s.add("quit;", None, keep=True)
    p = intr_plan(r)
    if r.random() < .4:
        p.update(gc_plan(r))
        if r.random() < .5:
            p.update(bgc_plan(r))
    return one(s.items, lean(r), p, oracle="after_interrupts")


def intr_bdd(r):
    s = bdd.bdd_session(r)
    p = intr_plan(r)
    if r.random() < .7:
        p.update(bgc_plan(r, .7))
    return one(s.items, lean(r), p, oracle="after_interrupts", inner="bdd_items", names=s.m.names)


def intr_exit(r):
    c = intr_session(r)
    c["phases"][0]["plan"]["intr_answer"] = r.choice(["cx", "x", "ccccx", "crx"])
    return c


prop("C03", [(intr_session, 4), (intr_bdd, 3), (intr_exit, 1)],
     "A case counts when at least one interrupt (or forced collection or reordering) fired; distinct by event-log hash.",
     [FL_CORE, BDD_REAL, "interrupt handling (signal handler, question, answers, return to top level)"], STUB)


# ------------------------------------------------- C04 failing statements
def fail_gc(r):
    s = fail.fail_session(r)
    p = gc_plan(r, .5) if r.random() < .8 else {}
    if r.random() < .4:
        p.update(bgc_plan(r))
    return one(s.items, lean(r), p)


def fail_intr(r):
    """Failures and interrupts together."""
    s = fail.fail_session(r)
    s.items.pop()
    s.add("#disarm", None, keep=True)
    s.add("quit;", None, keep=True)
    p = intr_plan(r)
    if r.random() < .5:
        p.update(gc_plan(r, .5))
    return one(s.items, lean(r), p, oracle="after_interrupts")


prop("C04", [(fail_gc, 4), (fail_intr, 1)],
     "A case counts when at least one forced collection or interrupt fired while failures were raised and handled; distinct by event-log hash.",
     [FL_CORE, BDD_REAL], STUB)


# ------------------------------------------------------- C05 file I/O
def io_case(r, plan, lossy=False, crash=False):
    s = fileio.file_case(r)
    c = one(s.items, lean(r), plan, oracle="file_events", events=s.ev, lossy=lossy, fixed_items=True)
    c["phases"][0]["post"] = "disk"
    plan["bufsz"] = r.choice([0, 0, 1, 2, 16, 64, 100, 512, 1000, 8192])
    if r.random() < .4:
        plan.update(gc_plan(r, .5))
    return c


def io_plain(r):
    p = {}
    if r.random() < .9:
        p.update({"short_rate": r.choice([1, 2, 5, 30])})
    return io_case(r, p)


def io_disk(r):
    """The disk fills up or fails."""
    k = r.random()
    if k < .35:
        p = {"quota": int(2 ** r.uniform(0, 14))}
    else:
        p = {"fserr_rate": r.choice([3, 10, 30]), "fserr_max": r.choice([1, 2, 10])}
    if r.random() < .5:
        p["short_rate"] = r.choice([2, 10])
    return io_case(r, p, lossy=True)


def io_crash(r):
    """The process is killed; what was closed before is on disk."""
    p = {"crash_start": int(2 ** r.uniform(3, 9)), "crash_max": 1, "crash_burst": 1}
    return io_case(r, p)


prop("C05", [(io_plain, 3), (io_disk, 3), (io_crash, 1)],
     "A case counts when at least one short read, disk error, full disk, crash or forced collection happened; distinct by event-log hash.",
     [FL_CORE, "stream functions (io.c), stdio of the C library above the simulated read/write/seek/close"], STUB + ["disk below stdio (simulated: short reads, errors, full disk)"])


# ------------------------------------------------------- C06 loading files
def load_plan(r, plan, faults=False, **kw):
    l = load.load_case(r)
    c = one(l.s.items, lean(r), plan, oracle="loads", ops=l.ops, faults=faults, fixed_items=True)
    c.update(kw)
    c["phases"][0]["files"] = l.text
    plan["bufsz"] = r.choice([0, 0, 1, 7, 100, 512, 4096])
    if r.random() < .7:
        plan["short_rate"] = r.choice([1, 2, 10])
    return c


def load_gc(r):
    p = {}
    if r.random() < .8:
        p.update(gc_plan(r, .5))
    return load_plan(r, p)


def load_faults(r):
    """Files that cannot be opened at the moment."""
    p = {"fserr_rate": r.choice([2, 4, 10]), "fserr_max": r.choice([1, 2, 10])}
    if r.random() < .4:
        p.update(gc_plan(r, .5))
    return load_plan(r, p, True)


def load_intr(r):
    p = intr_plan(r)
    if r.random() < .4:
        p.update(gc_plan(r, .5))
    return load_plan(r, p, oracle="after_interrupts", inner="loads")


prop("C06", [(load_gc, 2), (load_faults, 2), (load_intr, 2)],
     "A case counts when at least one short read, failed open, interrupt or forced collection happened; distinct by event-log hash.",
     [FL_CORE, "file loading (lexer, Read_from_file)", "stdio of the C library above the simulated disk"], STUB + ["disk below stdio"])


# ------------------------------------------------ C07 values saved on disk
def store_plan(r, plans, lossy=False):
    phs, ev = store.store_case(r)
    ps = []
    for i, items in enumerate(phs):
        p = dict(plans(i))
        p["bufsz"] = r.choice([0, 0, 1, 64, 4096])
        if r.random() < .5:
            p["short_rate"] = r.choice([1, 3, 20])
        if r.random() < .6:
            p.update(gc_plan(r, .4))
        if r.random() < .5:
            p.update(bgc_plan(r, .4))
        ps.append({"config": lean(r), "plan": p, "items": items})
    return {"phases": ps, "oracle": "stored", "events": ev, "lossy": lossy, "fixed_items": True}


def store_gc(r):
    return store_plan(r, lambda i: {})


def store_faults(r):
    def p(i):
        k = r.random()
        if k < .3:
            return {"quota": int(2 ** r.uniform(4, 14))}
        q = {"fserr_rate": r.choice([5, 20, 60]), "fserr_max": r.choice([1, 2, 10]), "read_faults": r.choice([0, 1])}
        if r.random() < .5:
            q.update({"syserr_rate": r.choice([2, 5]), "syserr_max": 3})
        return q
    return store_plan(r, p, True)


def store_crash(r):
    """Killed in the middle of a write; the next process finds what was left."""
    return store_plan(r, lambda i: {"crash_start": int(2 ** r.uniform(3, 10)), "crash_max": 1, "crash_burst": 1} if i == 0 else {})


def store_intr(r):
    return store_plan(r, lambda i: intr_plan(r))


prop("C07", [(store_gc, 3), (store_faults, 3), (store_crash, 2), (store_intr, 2)],
     "A case counts when at least one short read, disk error, failed command, crash, interrupt or forced collection happened; distinct by event-log hash.",
     [FL_CORE, BDD_REAL, "save and load of values (serialize.c, io.c), of BDDs and of bexprs", "tar (real, in the scratch directory, output made visible stepwise)"],
     STUB + ["disk below stdio (short reads, errors, full disk)", "failure and truncation of the tar command"])


# ------------------------------------------------ C08 commands and processes
def proc_plan(r, plan, **kw):
    p = procs.proc_case(r)
    plan["worker_rate"] = r.choice([1, 2, 4, 10, 40])
    plan["fair"] = r.choice([3, 12, 40])
    if r.random() < .3:
        plan["bufsz"] = r.choice([1, 64, 512])
    if r.random() < .5:
        plan["short_rate"] = r.choice([1, 3, 20])
    if r.random() < .5:
        plan.update(gc_plan(r, .4))
    cfg = lean(r)
    k = r.random()
    if k < .06:          # the user of the session, or of one whose environment names none
        if k < .03:
            cfg = "nouser"
        p.s.items.insert(len(p.s.items) - 1, {"id": "user", "t": "show_line (\"user \"^USER);", "keep": True,
                                              "exp": ["re", r"user root"] if cfg != "nouser" else ["re", r"user .*"]})
    c = one(p.s.items, cfg, plan, oracle="procs", events=p.ev, fixed_items=True)
    c.update(kw)
    return c


def proc_sched(r):
    return proc_plan(r, {})


def proc_faults(r):
    """Children die, and the system cannot start processes or commands."""
    return proc_plan(r, {"wkill_rate": r.choice([3, 10, 30]), "wkill_max": r.choice([1, 3]), "syserr_rate": r.choice([2, 4, 10]), "syserr_max": r.choice([1, 3, 10]),
                         "fork_faults": 1, "system_faults": r.choice([0, 1])})


def proc_intr(r):
    p = intr_plan(r)
    if r.random() < .2:
        p["intr_answer"] = "ccx"
    return proc_plan(r, p, oracle="after_interrupts", inner="procs")


prop("C08", [(proc_sched, 3), (proc_faults, 2), (proc_intr, 2)],
     "A case counts when at least one child step, child death, failed process start, failed command, interrupt, short read or forced collection was injected; distinct by event-log hash.",
     [FL_CORE, "process and command functions (system.c, io.c pipes, preamble.fl system2)", "child commands run by a real shell, their steps granted by the simulator"],
     STUB + ["fork, waitpid, kill, sleep (answered from the simulator's process table and clock)", "popen (the command's output is captured, then read in simulated pieces)"])


# ------------------------------------------------------ C09 para_eval
def para_plan(r, plan, **kw):
    p = para.para_case(r)
    plan["worker_rate"] = r.choice([1, 2, 4, 10, 40])
    plan["fair"] = r.choice([3, 12, 40])
    if r.random() < .4:
        plan.update(gc_plan(r, .4))
    if r.random() < .4:
        plan["worker_gc_rate"] = r.choice([20, 100, 400])
        plan["gc_colls"] = 60
    if r.random() < .3:
        plan["worker_bgc_rate"] = r.choice([1, 5])
    if r.random() < .4:
        plan["worker_short_rate"] = r.choice([1, 4])
    c = one(p.s.items, lean(r), plan, oracle="para", events=p.ev, fixed_items=True)
    c.update(kw)
    return c


def para_sched(r):
    return para_plan(r, {})


def para_deaths(r):
    """Workers are killed, the disk or a helper command fails them, or they cannot be started."""
    p = {}
    k = r.random()
    if k < .6:
        p.update({"wkill_rate": r.choice([4, 10, 30, 60]), "wkill_max": r.choice([1, 2, 5])})
    if k > .5:
        p.update({"worker_fserr_rate": r.choice([2, 6, 20]), "worker_fserr_max": 1, "worker_syserr_rate": r.choice([2, 6]), "worker_syserr_max": 1})
    if k > .8:
        p.update({"syserr_rate": r.choice([3, 10]), "syserr_max": 1, "fork_faults": 1})
    return para_plan(r, p)


def para_intr(r):
    return para_plan(r, intr_plan(r), oracle="after_interrupts", inner="para")


prop("C09", [(para_sched, 3), (para_deaths, 3), (para_intr, 1)],
     "A case counts when at least one worker step was scheduled by the seed, or a worker death, disk or command failure, interrupt or forced collection was injected; distinct by event-log hash.",
     [FL_CORE, BDD_REAL, "para_eval (preamble.fl), process functions (system.c), worker processes running the same fl with --eval_expr, graph save and load"],
     STUB + ["fork, waitpid, kill, sleep (answered from the simulator's process table and clock)", "disk below stdio", "visibility of tar's output (stepwise)"])


# ------------------------------------------------- C10 bexprs and SAT
def sat_plan(r, plan, **kw):
    s = sat.sat_case(r)
    k = r.random()
    if k < .75:
        plan.update(r.choice([{"sat_rate": r.choice([1, 2, 3, 8, 30]), "sat_max": r.choice([1, 3, 50])},
                              {"sat_start": int(2 ** r.uniform(0, 9)), "sat_burst": r.choice([1, 3, 20]), "sat_max": 30}]))
    if r.random() < .7:
        plan.update(gc_plan(r, .6))
    if r.random() < .3:
        plan.update(bgc_plan(r, .4))
    c = one(s.items, lean(r), plan, oracle="sat", events=s.ev, names=s.m.names)
    c.update(kw)
    return c


def sat_limits(r):
    return sat_plan(r, {})


def sat_intr(r):
    return sat_plan(r, intr_plan(r), oracle="after_interrupts", inner="sat")


prop("C10", [(sat_limits, 4), (sat_intr, 1)],
     "A case counts when at least one solver time limit expired where the seed said, or an interrupt or forced collection or reordering was injected; distinct by event-log hash.",
     [FL_CORE, BDD_REAL, "bexpr package (bexpr.c) and the MiniSat solver"], STUB + ["the CPU timer of the solver (its expiry is decided by the simulator)"])


# ------------------------------------------------------- C11 STE
def ste_plan(r, plan, **kw):
    s = ste.ste_case(r)
    if r.random() < .75:
        plan.update(gc_plan(r, .5))
    if r.random() < .7:
        plan.update(bgc_plan(r, .4))
    if not any(k.startswith(("gc", "bgc", "intr")) for k in plan):
        plan.update(bgc_plan(r, .4))
    c = one(s.items, lean(r, .95), plan, oracle="ste", events=s.ev, names=s.m.names, runs=s.runs, cks=[c.json() for c in s.ck], acc=s.acc)
    c.update(kw)
    return c


def ste_runs(r):
    return ste_plan(r, {})


def ste_intr(r):
    return ste_plan(r, intr_plan(r))


prop("C11", [(ste_runs, 4), (ste_intr, 1)],
     "A case counts when at least one collection, reordering or interrupt was forced inside the session; distinct by event-log hash.",
     [FL_CORE, BDD_REAL, "pexlif compilation and symbolic simulation (fsm.c, pexlif.c)", "bexpr.c"], STUB)


# ------------------------------------------------------- C12 graphical front end
def gui_plan(r, plan, **kw):
    g, peer = gui.gui_case(r)
    k = r.random()
    plan.update(r.choice([{"peer_rate": 1}, {"peer_rate": 2}, {"peer_rate": 5}, {"peer_rate": 20}, {"peer_rate": 100}]))
    if r.random() < .3:
        plan["peer_max"] = r.choice([1, 3, 10])
    if r.random() < .3:
        plan["sock_cap"] = r.choice([5000, 20000, 70000])
    if r.random() < .6:
        plan.update(gc_plan(r, .3))
    c = {"phases": [{"config": "gui", "plan": plan, "items": g.items, "files": {"peer": peer}}], "oracle": "gui", "wl": "gui"}
    c.update(kw)
    return c


def gui_sched(r):
    return gui_plan(r, {})


def gui_intr(r):
    return gui_plan(r, intr_plan(r), intr=1)


prop("C12", [(gui_sched, 4), (gui_intr, 2)],
     "A case counts when at least one delivery, delay, button press or order of events was decided by the seed, or a collection or interrupt was forced; distinct by event-log hash.",
     [FL_CORE, "GUI main loop, command splitting and socket protocol (fl.c), conversion of values (remote_tcl.c), output (error.c)"],
     ["wish and front_end.tcl (a stand-in that follows its protocol and runs scripted programs)", "sockets, poll (simulated)", "X server"] + STUB[2:])


# ------------------------------------- collections and interrupts everywhere
for _g, _w in ((load_intr, 2), (fail_intr, 2), (store_intr, 1), (proc_intr, 1), (sat_intr, 1), (ste_intr, 1)):
    PROPS["C03"]["gens"].append((foreign(_g, "intr"), _w))
for _g, _w in ((load_gc, 1), (fail_gc, 2), (sat_limits, 1), (ste_runs, 2), (gui_sched, 1), (store_gc, 1)):
    PROPS["C01"]["gens"].append((foreign(_g, "gc", "bgc"), _w))
