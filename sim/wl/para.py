"""para_eval: expressions evaluated by worker processes, in every order, with workers that die."""
import re
import flgen
import framework as fw
from framework import oracle, strip_prompt
from session import Sess, churn
from procs import log_sections, lst


class Para:
    def __init__(self, r):
        self.r, self.s, self.ev = r, Sess(r), []

    def exprs(self):
        """Texts and what each shows: ("v", value) or "fail"."""
        r, s = self.r, self.s
        t = s.g.rtype(r.choice([0, 0, 1, 2]))
        out = []
        for i in range(r.choice([0, 1, 2, 2, 3, 3, 4, 5])):
            k = r.random()
            if k < .12:
                out.append(('(error "pe%d")' % i, None))
                continue
            _, x, v = s.value(t, r.choice([1, 2, 3]))
            if k < .3:
                x = "(let z = churn %d in z = (-1) => error \"odd\" | (%s))" % (r.choice([10, 300]), x)
            elif k < .4:
                f, m = s.fun("int", t, 2)
                try:
                    v = m(3)
                except flgen.TooBig:
                    v = None
                    x = '(error "big")'
                else:
                    x = "(%s 3)" % f
            out.append((x, v))
        return t, out

    def run(self):
        r, s = self.r, self.s
        t, xs = self.exprs()
        n = s.nid("rs")
        single = r.random() < .35
        maxp = r.choice([None, None, 1, 2, 3])
        opts = []
        if maxp:
            opts.append("max_processes->%d" % maxp)
        if single:
            opts.append("single_winner->T")
        if r.random() < .8:
            opts.append("verbose->F")
        if r.random() < .3:
            opts.append("import_var_order->T")
        if r.random() < .15:
            opts.append("max_cpu->1000")
        if r.random() < .15:
            opts.append("max_memory->4000")
        r.shuffle(opts)
        lt = "[%s]" % ",".join("(%s)" % x for x, _ in xs) if xs else "{[]::(%s list)}" % flgen.ty_text(t)
        if r.random() < .3 and xs:
            # held by the session, perhaps used before
            h = s.nid("h")
            s.add("let %s = %s;" % (h, lt), ["quiet"])
            if r.random() < .5 and xs[0][1] is not None:
                s.add("show_line (%s (hd %s));" % (flgen.shower(t), h), fw.shown(t, xs[0][1]))
            lt = h
        i = s.add('let %s = para_eval %s %s;\n(show_line "n="^(int2str (length %s)));' % (n, lt, " ".join(opts), n) if False else
                  "let %s = para_eval %s %s;\nlet %sn = length %s;\nshow_line (int2str %sn);" % (n, lt, " ".join(opts), n, n, n))
        self.ev.append([i, "para", n, len(xs), single, maxp or 20, [v is None for _, v in xs]])
        for k, (x, v) in enumerate(xs):
            i = s.add("show_line (((\\v. has_value v => \"=\"^(%s (get_value v)) | \"none\") (el %d %s)) gen_catch (\\m. (str_is_substr \"pe%d\" m) => \"mine\" | m));" % (flgen.shower(t), k + 1, n, k))
            self.ev.append([i, "el", n, k, None if v is None else fw.shown(t, v)])


def para_case(r):
    p = Para(r)
    for _ in range(r.choice([1, 1, 2, 3])):
        for _ in range(r.choice([0, 0, 1])):
            p.s.h_let()
        p.run()
        if r.random() < .5:
            for q in p.s.probes[:2]:
                q()
    p.s.add("#disarm", None, keep=True)
    for n, t in p.s.g.vars[:3]:
        p.s.show(n, t, p.s.env[n])
    p.s.add("show_line (int2str (churn 100));", fw.shown("int", churn(100)), keep=True)
    p.s.add(r.choice(["quit;", "#eof"]), None, keep=True)
    return p


@oracle
def para(case, results):
    bad = []
    ph, r = case["phases"][0], results[0]
    logs = log_sections(r)
    wide = re.findall(r"^KILL-(?:WIDE|STRANGER|REAPED).*", r.log, re.M)
    if wide:
        bad.append(("stranger", "a signal was sent to a process that is not a running child: %s" % wide[:3]))
    left = re.findall(r"^ATEXIT (\d+) running", r.log, re.M)
    if left and r.how == "exit":
        bad.append(("left", "worker %s still running after fl ended" % left))
    if r.how != "exit" or (r.status != 0 and not ph.get("any_status")):
        return bad + [("end:%s:%d" % (r.how, r.code), "ended with %s %d (status %d): %r" % (r.how, r.code, r.status, (r.err or "")[-300:]))]
    hurt = set(int(x) for x in re.findall(r"^WKILL (\d+)", r.log, re.M))
    for w, k, n, a in r.fires:
        if w and k in ("fserr", "syserr", "memfail", "crash"):
            hurt.add(w)
    for w, t in r.wlogs.items():
        if re.search(r"QUOTA|TARFAIL", t):
            hurt.add(w)
    sec, err, ln = r.sections("out"), r.sections("err"), ph["line_of"]
    have = {it["id"]: it for it in ph["items"]}
    prev = 0
    span = {}
    for it in ph["items"]:
        span[it["id"]] = (prev, ln[it["id"]])
        prev = ln[it["id"]]
        if it.get("exp") and ln[it["id"]] in sec:
            m = fw.check_exp(it["exp"], sec[ln[it["id"]]], err.get(ln[it["id"]], ""))
            if m:
                bad.append(("item:" + it["id"], "%s: %s" % (it["t"][:300], m)))
    info = {}
    state = {}
    for e in case["events"]:
        i, k = e[:2]
        it = have.get(i)
        if it is None or it.get("lost") or ln[i] not in sec:
            continue
        n = ln[i]
        o, er = strip_prompt(sec[n]).rstrip("\n"), err.get(n, "")
        failed = "Failure" in er or "Run-time error" in er
        say = lambda m: bad.append(("item:" + i, "%s: %s; output %r messages %r" % (k, m, o[:200], er[:300])))
        if k == "para":
            lg = [l for s in range(span[i][0] + 1, n + 1) for l in logs.get(s, [])]
            mainf = any(re.match(r"FIRE (fserr|syserr|memfail)|FORKFAIL|QUOTA|TARFAIL", l) for l in lg)
            spawned, run, most, ended = [], set(), 0, {}
            for l in lg:
                m = re.match(r"SPAWN (\d+) ", l)
                if m:
                    spawned.append(int(m.group(1)))
                    run.add(int(m.group(1)))
                    most = max(most, len(run))
                m = re.match(r"PEXIT (\d+) status (\d+)", l)
                if m:
                    run.discard(int(m.group(1)))
                    ended[int(m.group(1))] = int(m.group(2))
            info[e[2]] = dict(failed=failed or mainf, spawned=spawned, single=e[4], cnt=e[3], got={}, ended=ended)
            if failed:
                if not mainf and not (True in e[6] and re.search(r"pe\d|big", er)):
                    say("failed without a reason")
                continue
            last = [x for x in o.split("\n") if not x.startswith("Para_eval")][-1:]
            if last != [str(e[3])]:
                say("expected %d results" % e[3])
            if most > e[5]:
                say("%d processes at a time instead of at most %d" % (most, e[5]))
            if len(spawned) > e[3] or (not e[4] and len(spawned) != e[3]):
                say("%d processes for %d expressions" % (len(spawned), e[3]))
            if run:
                say("worker %s still running after para_eval returned" % sorted(run))
        else:
            f = info.get(e[2])
            if f is None or f["failed"]:
                continue
            w = f["spawned"][e[3]] if e[3] < len(f["spawned"]) else None
            if failed:
                say("failed")
            elif o == "none":
                f["got"][e[3]] = None
                if not f["single"] and w not in hurt:
                    say("no value though its worker was not hurt")
            else:
                f["got"][e[3]] = 1
                if e[4] is None:
                    if o != "mine" and "big" not in o:
                        say("a failing expression gave something else")
                elif not o.startswith("=") or fw.check_exp(e[4], sec[n].replace("=", "", 1), er):
                    say("expected %r" % (e[4],))
            if f["single"] and len(f["got"]) == f["cnt"]:
                k2 = sum(1 for v in f["got"].values() if v)
                if k2 > 1:
                    say("%d winners" % k2)
                if k2 == 0 and not all(x in hurt for x in f["spawned"]):
                    say("no winner though worker %s was not hurt" % [x for x in f["spawned"] if x not in hurt])
    return bad
