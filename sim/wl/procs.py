"""Commands and child processes: exec, system, system2, pipes, spawn, status, kill, sleep,
and what is left running at the end. The simulator's log tells what really happened to every child."""
import re
import flgen
import framework as fw
from framework import oracle, shown, strip_prompt
from session import Sess
from intr import lost_lines


def sh_quote(s):
    return "'" + s.replace("'", "'\\''") + "'"


def fl_text(s):
    return s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")


class Procs:
    def __init__(self, r, syserr=False):
        self.r, self.s, self.ev = r, Sess(r), []
        self.jobs, self.n = [], 0

    def op(self, text, *e, **kw):
        i = self.s.add(text, None, keep=kw.get("keep", False))
        self.ev.append([i] + list(e))
        return i

    def text(self):
        """Lines a command writes, and the shell text that writes them."""
        r = self.r
        ls, cmds = [], []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3, 8])):
            k = r.random()
            if k < .5:
                l = "".join(r.choice("abc xyz12;,.") for _ in range(r.choice([1, 3, 10, 40])))
                cmds.append("printf '%%s\\n' %s" % sh_quote(l))
            elif k < .7:
                l = ""
                cmds.append("echo")
            else:
                n = r.choice([100, 1022, 1023, 1024, 4094, 4095, 4096, 5000, 8191, 8192, 20000])
                l = "0" * n
                cmds.append("printf '%%0%dd\\n' 0" % n)
            ls.append(l)
        end = True
        if r.random() < .25:
            l = r.choice(["z", "tail", "0" * 4095])
            cmds.append("printf '%s' " + sh_quote(l) if len(l) < 10 else "printf '%04095d' 0")
            ls.append(l)
            end = False
        return ls, end, "; ".join(cmds)

    def status(self):
        k = self.r.random()
        if k < .3:
            return "", 0
        if k < .8:
            c = self.r.choice([1, 2, 3, 7, 126, 255])
            return "; exit %d" % c, c << 8
        return "; kill -9 $$", 9

    def exec_(self):
        ls, _, c = self.text()
        e, st = self.status()
        c = (c or "true") + e
        self.op('let r = exec "%s" in show_line ((int2str (fst r))^(sh_list string_lens (snd r)));' % fl_text(c), "exec", st, ["%d:%s" % (len(l), l[:30]) for l in ls])

    def system_(self):
        e, st = self.status()
        f = self.file()
        self.op('show_line (int2str (system "echo %d >> %s%s"));' % (self.n, f, e), "system", st, f, str(self.n))
        self.n += 1

    def system2_(self):
        o, oe, oc = self.text()
        e, ee, ec = self.text()
        x, st = self.status()
        c = "bash -c %s" % sh_quote("%s; { %s; } >&2%s" % (oc or ":", ec or ":", x if "kill" not in x else "; exit 9"))
        if "kill" in x:
            st = 9 << 8
        nl = lambda ls, end: ["%d:%s" % (len(l) + (i < len(ls) - 1 or end), l[:30] if len(l) >= 30 or not (i < len(ls) - 1 or end) else l + "!") for i, l in enumerate(ls)]
        chunks = max([len(l) for l in o + e] or [0]) > 4000
        self.op('let r = system2 "%s" in show_line ((int2str (fst r))^(sh_list string_lens (fst (snd r)))^(sh_list string_lens (snd (snd r))));' % fl_text(c),
                "system2", st, nl(o, oe), nl(e, ee), chunks)

    def file(self):
        return "out%d" % self.r.randint(0, 2)

    def pipe_r(self):
        ls, end, c = self.text()
        e, st = self.status()
        t = "\n".join(ls) + ("\n" if ls and end else "")
        k = self.s.nid("p")
        self.op('let %s = fopen "%s" "|r";\n%s seq (show_line "open");' % (k, fl_text(": %s; " % k + (c or "true") + e), k), "popen", k)    # a name of its own: an interrupt may leave it open
        self.op("show_line (string_len (fget %s));" % k, "piper", k, "%d:%s" % (len(t), t[:30].replace("\n", "!")))
        self.op("show_line (int2str (fclose %s));" % k, "pclose", k, st)

    def pipe_w(self):
        e, st = self.status()
        k, f = self.s.nid("p"), self.s.nid("pw")
        self.op('let %s = fopen "cat > %s%s" "|w";\n%s seq (show_line "open");' % (k, f, e, k), "popen", k)
        t = "".join(self.r.choice("ab \n") for _ in range(self.r.choice([0, 1, 20, 300])))
        self.op('fprintf %s "%%s" "%s";' % (k, fl_text(t)), "pipew", k)
        self.op("show_line (int2str (fclose %s));" % k, "pclose", k, st)
        self.op('show_line (let fp = fopen "%s" "r" then let t = fget fp then (fclose fp) fseq (string_len t));' % f, "pipef", k, "%d:%s" % (len(t), t[:30].replace("\n", "!")))

    def spawn_(self):
        r = self.r
        k = self.s.nid("j")
        cs = []
        for _ in range(r.choice([0, 1, 2, 4])):
            cs.append(r.choice(["sleep %g" % r.choice([.01, .2, 1, 30]), "echo %s >> log_%s" % (k, k), ":"]))
        end = r.random()
        if end < .2:
            cs.append("while :; do sleep 1; done")
        elif end < .3:
            cs.append("kill -9 $$")
        elif end < .4:
            cs.append("true")
        else:
            cs.append("exit %d" % r.choice([0, 1, 5, 127, 255]))
        self.jobs.append(k)
        self.op('let %s = spawn "%s";\nshow_line (int2str (%s - %s));' % (k, fl_text("; ".join(cs)), k, k), "spawn", k)

    def poll(self):
        k = self.r.choice(self.jobs)
        self.op("show_line (int2str (get_process_exit_status %s));" % k, "poll", k)

    def polls(self):
        k = self.r.choice(self.jobs)
        self.op("show_line (sh_list int2str (let a = get_process_exit_status %s then let b = kill %s 0 then let c = get_process_exit_status %s then [a,b,c]));" % (k, k, k), "polls", k)

    def kill_(self):
        k = self.r.choice(self.jobs)
        sg = self.r.choice([9, 9, 15, 0, 0])
        if sg == 9 and self.r.random() < .3:
            self.op('show_line (int2str (system (sprintf "kill -9 %%d" %s)));' % k, "skill", k)
        else:
            self.op("show_line (int2str (kill %s %d));" % (k, sg), "kill", k, sg)

    def sleep_(self):
        ms = self.r.choice([0, 1, 20, 250, 999, 1000, 1001, 60000])
        f = self.r.choice(["etime", "etime", "wtime"])
        self.op("show_line (snd (%s (sleep %d)));" % (f, ms), "sleep", ms, f)

    def badsleep(self):
        ms = self.r.choice(["(-1)", "(-1000)", "(2**63)", "(2**70)"])
        self.op("show_line (snd (etime (sleep %s)));" % ms, "badsleep")

    def timed(self):
        """The value timed is the value, a failing one fails."""
        t, x, v = self.s.value(d=1)
        f = self.r.choice(["etime", "wtime", "time"])
        self.s.add("show_line (%s (fst (%s (%s))));" % (flgen.shower(t), f, x), shown(t, v))
        if self.r.random() < .3:
            self.op('show_line (snd (%s (error "tm%d")));' % (f, self.n), "fails", "tm%d" % self.n)
            self.n += 1

    def work(self):
        self.s.add("show_line (int2str (churn 400));", None)


PRE2 = ["let string_len s = (int2str (strlen s))^(\":\"^(implode (map (\\c. c = \"\\n\" => \"!\" | c) (explode ((strlen s) <= 30 => s | substr s 1 30)))));",
        "let string_lens s = string_len s;"]


def proc_case(r, popen=True):
    p = Procs(r)
    pre = [{"id": "pp%d" % i, "t": t, "exp": ["quiet"], "keep": True} for i, t in enumerate(PRE2)]
    p.s.items[1:1] = pre
    jobs = r.random() < .6
    for _ in range(r.randint(3, 14) + 6 * jobs):
        ops = [p.spawn_, p.spawn_, p.sleep_, p.sleep_, p.work, p.system_] if jobs else [p.exec_, p.system_, p.system2_, p.pipe_r, p.pipe_w, p.spawn_, p.spawn_, p.sleep_, p.badsleep, p.timed, p.work]
        if p.jobs:
            ops += [p.poll] * 4 + [p.polls] * 2 + [p.kill_] * 3
        r.choice(ops)()
    p.s.add("#disarm", None, keep=True)
    for k in p.jobs:
        if r.random() < .7:
            p.op("show_line (int2str (get_process_exit_status %s));" % k, "poll", k, keep=True)
    p.s.add("show_line (int2str (churn 100));", shown("int", __import__("session").churn(100)), keep=True)
    p.s.add(r.choice(["quit;", "quit;", "exit 0;", "#eof"]), None, keep=True)
    return p


def lst(xs):
    return "[%s]" % "".join(x + ";" for x in xs)


def log_sections(r):
    """Per script line: log text before it starts is complete up to that point."""
    cur, out = 0, {0: []}
    for l in r.log.split("\n"):
        m = re.match(r"CMD (\d+)\b", l)
        if m:
            cur = int(m.group(1))
            out[cur] = []
        else:
            out[cur].append(l)
    return out


@oracle
def procs(case, results):
    bad = []
    ph, r = case["phases"][0], results[0]
    logs = log_sections(r)
    wide = re.findall(r"^KILL-(?:WIDE|STRANGER|REAPED).*", r.log, re.M)
    if wide:
        bad.append(("stranger", "a signal was sent to a process that is not a running child: %s" % wide[:3]))
    left = re.findall(r"^ATEXIT (\d+) running", r.log, re.M)
    if left and r.how == "exit":
        bad.append(("left", "spawned process %s still running after fl ended" % left))
    if r.how != "exit" or (r.status != 0 and not ph.get("any_status")):
        return bad + [("end:%s:%d" % (r.how, r.code), "ended with %s %d (status %d): %r" % (r.how, r.code, r.status, (r.err or "")[-300:]))]
    sec, err, ln = r.sections("out"), r.sections("err"), ph["line_of"]
    # state of each child at the end of each section
    state, at, idx = {}, {}, {}
    for n in sorted(logs):
        before = dict(state)
        mid, spawned = [dict(state)], []
        for l in logs[n]:
            m = re.match(r"SPAWN (\d+) pid (\d+)", l)
            if m:
                state[int(m.group(1))] = ("run",)
                spawned.append((int(m.group(1)), int(m.group(2))))
                mid.append(dict(state))
            m = re.match(r"PEXIT (\d+) status (\d+)", l)
            if m:
                st = int(m.group(2))
                state[int(m.group(1))] = ("exit", st >> 8) if not st & 127 else ("killed", st & 127)
                mid.append(dict(state))
        at[n] = (mid, spawned, logs[n])
    calls = lost_lines(r)
    reaped = set()
    dead = set()        # names without a process or stream
    for it in ph["items"]:
        n = ln[it["id"]]
        if it.get("exp") and n in sec:
            m = fw.check_exp(it["exp"], sec[n], err.get(n, ""))
            if m:
                bad.append(("item:" + it["id"], "%s: %s" % (it["t"][:300], m)))
    lost = set(it["id"] for it in ph["items"] if it.get("lost"))
    have = set(it["id"] for it in ph["items"])
    files = {}
    for e in case["events"]:
        i, k = e[:2]
        if i not in have:
            if k in ("spawn", "popen"):
                dead.add(e[2])
            continue
        n = ln[i]
        if n not in sec:
            bad.append(("item:" + i, "statement never ran"))
            continue
        o, er = strip_prompt(sec[n]).rstrip("\n"), err.get(n, "")
        failed = "Failure" in er or "Run-time error" in er
        mid, spawned, lg = at[n]
        sysf = any(l.startswith("FIRE syserr") or l == "FORKFAIL" for l in lg)
        say = lambda m: bad.append(("item:" + i, "%s: %s; output %r messages %r" % (k, m, o[:200], er[:200])))
        if i in lost:
            if k in ("spawn", "popen"):
                dead.add(e[2])
            if k in ("pclose", "pipew", "pipe"):
                dead.add(e[2])
            continue
        if k in ("poll", "polls", "kill", "skill", "pclose", "piper", "pipew", "pipef") and e[2] in dead:
            continue
        if sysf and k not in ("spawn", "popen"):
            continue
        if k == "spawn":
            if failed:
                dead.add(e[2])
                if "FORKFAIL" not in lg:
                    say("failed though the system could start a process")
            elif len(spawned) != 1:
                say("no process was started")
            else:
                idx[e[2]] = spawned[0][0]
        elif k == "popen":
            if failed:
                dead.add(e[2])
                if not sysf:
                    say("failed")
        elif k == "exec":
            if failed or o != "%d%s" % (e[2], lst(e[3])):
                say("expected %r" % ("%d%s" % (e[2], lst(e[3])))[:300])
        elif k == "system":
            if failed or o != str(e[2]):
                say("expected %d" % e[2])
        elif k == "system2":
            if e[5]:
                continue
            w = "%d%s%s" % (e[2], lst(e[3]), lst(e[4]))
            if failed or o != w:
                say("expected %r" % w[:300])
        elif k in ("piper", "pipef"):
            if failed or o != e[3]:
                say("expected %r" % e[3])
        elif k == "pclose":
            if failed or o != str(e[3]):
                say("expected %d" % e[3])
        elif k == "sleep":
            ms = e[2]
            m = re.fullmatch(r"(\d+)\.(\d+)", o)
            t = float(o) * 1000 if m else -1
            if failed or not m:
                say("no time")
            elif e[3] == "etime" and not (ms <= t <= ms * 1.01 + 5):
                say("slept %g ms instead of %d" % (t, ms))
            elif e[3] == "wtime" and not (ms - 100 <= t <= ms * 1.01 + 5):
                say("slept %g ms instead of %d" % (t, ms))
        elif k == "badsleep":
            if not failed:
                say("accepted")
        elif k == "fails":
            if not failed or e[2] not in er:
                say("no failure %s" % e[2])
        elif k in ("poll", "polls", "kill", "skill"):
            x = idx.get(e[2])
            if x is None:
                continue
            sts = [m[x] for m in mid if x in m]
            pol = {("%d" % s[1] if s[0] == "exit" else "999999") for s in sts}
            run = {s[0] == "run" for s in sts}
            if failed:
                say("failed")
            elif k == "poll":
                if o not in pol:
                    say("the process is %s; expected %s" % (sts, sorted(pol)))
                if "999999" != o or run == {False}:
                    reaped.add(x)
            elif k == "polls":
                m = re.fullmatch(r"\[(-?\d+);(-?\d+);(-?\d+);\]", o)
                if not m or m.group(1) not in pol or m.group(3) not in pol:
                    say("the process is %s; expected statuses in %s" % (sts, sorted(pol)))
                elif m.group(1) != "999999" and m.group(3) != m.group(1):
                    say("the status changed")
                elif m.group(2) not in {"0" if a else "-1" for a in run} and not (m.group(2) == "0" and run == {False} and x not in reaped and m.group(1) == "999999" and len(sts) > 1):
                    say("kill p 0; process is %s" % sts)
                if run == {False}:
                    reaped.add(x)
            else:
                if k == "kill":
                    if e[3] and not run & {False} and o != "0":
                        say("could not kill a running process")
                    if o not in ("0", "-1"):
                        say("result of kill")
                    if x in reaped and o != "-1":
                        say("killed a process that had ended")
                if (k == "skill" or e[3]) and state_after(mid, x)[0] == "run":
                    say("the process still runs")
                if k == "kill" and e[3] == 0 and state_after(mid, x)[0] == "killed" and mid[0][x][0] == "run" and not any("WKILL" in l for l in lg) and not any(re.match(r"PEXIT %d status 9" % x, l) for l in lg):
                    say("signal 0 killed the process")
    return bad


def state_after(mid, x):
    return mid[-1][x]
