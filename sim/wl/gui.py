"""The graphical front end: commands typed there, tcl_eval, functions exported to and imported
from Tcl, output; over five sockets whose delivery the simulator decides. The front end is a
stand-in that runs scripted programs and checks what its calls return."""
import re
import framework as fw
import flgen
from framework import oracle, ORACLES
from intr import lost_lines

SPECIAL = set('"[]{};#$ \t\n\\')
PLAIN = "abcxyzABC0189_.,=+-*/<>!?@%^&|~()'"


def fl_text(s):
    if len(s) > 800:
        return "(%s)" % "^".join(fl_text(s[i:i + 800]) for i in range(0, len(s), 800))
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'


def protect(s):
    return "".join("\\u%04x" % ord(c) if c in SPECIAL else c for c in s)


def res_text(t, v):
    """How fl writes a value for Tcl."""
    if t == "void":
        return "{}"
    if t == "str":
        return "{%s}" % v if v == "" or set(v) & SPECIAL else v
    if t == "int":
        return str(v)
    if t == "bool":
        return "1" if v else "0"
    if t[0] == "list":
        return "{%s}" % " ".join(res_text(t[1], x) for x in v)
    return "{%s %s}" % (res_text(t[1], v[0]), res_text(t[2], v[1]))


def top_text(t, v):
    return "" if t == "str" and v == "" else res_text(t, v)


def arg_text(t, v, top=True):
    """How Tcl writes a value as an argument."""
    if t == "str":
        return v if top else res_text(t, v)
    if t == "int":
        return str(v)
    if t == "bool":
        return "1" if v else "0"
    x = " ".join(arg_text(t[1], y, False) for y in v) if t[0] == "list" else \
        arg_text(t[1], v[0], False) + " " + arg_text(t[2], v[1], False)
    return x if top else "{%s}" % x


LS, LI = ("list", "str"), ("list", "int")
PIS, PBL = ("pair", "int", "str"), ("pair", "bool", ("list", "int"))
PSS = ("pair", "str", "str")

# name: (argument types, result type, fl definition, Python meaning or None when it fails)
FUNS = {
    "f_len": (["str"], "int", "let f_len {s::string} = strlen s;", lambda s: len(s)),
    "f_cat": (["str", "str"], "str", "let f_cat {s::string} {t::string} = s^t;", lambda s, t: s + t),
    "f_rev": ([LS], LS, "let f_rev {l::string list} = rev l;", lambda l: l[::-1]),
    "f_sum": ([LI], "int", "let f_sum {l::int list} = itlist (\\x.\\y. x+y) l 0;", lambda l: sum(l)),
    "f_ints": (["int"], ("pair", "int", LI), "let f_ints {n::int} = (n, [n, n+1, n+2]);", lambda n: (n, [n, n + 1, n + 2])),
    "f_sel": (["bool", PIS], "int", "let f_sel {b::bool} {p::int#string} = b => fst p | strlen (snd p);", lambda b, p: p[0] if b else len(p[1])),
    "f_swap": ([PSS], PSS, "let f_swap {p::string#string} = (snd p, fst p);", lambda p: (p[1], p[0])),
    "f_not": (["bool"], "bool", "let f_not {b::bool} = NOT b;", lambda b: not b),
    "f_mul": (["int", "int"], "int", "let f_mul {a::int} {b::int} = a*b;", lambda a, b: a * b),
    "f_pack": (["int", LS], LS, "let f_pack {n::int} {l::string list} = \"\":(int2str n):l;", lambda n, l: ["", str(n)] + l),
    "f_nat": (["int"], ("list", PBL), "let f_nat {n::int} = n < 0 => [] | [(T,[n]), (F,[])];", lambda n: [] if n < 0 else [(True, [n]), (False, [])]),
    "f_void": (["str"], "void", "let f_void {s::string} = ();", lambda s: None),
    "f_big": (["int"], "str", "let f_big {n::int} = implode (replicate n \"x y\");", lambda n: "x y" * n),
}
DEFS = [d[2] for d in FUNS.values()] + [
    "let f_err {s::string} = (error s) => \"a\" | \"b\";",
    "let f_sym {s::string} = (variable s) AND (variable \"va\");",
    "lettype objt = OBJT int;", "let f_mk {n::int} = OBJT n;", "letrec f_val (OBJT n) = n;",
    "let f_ref {n::int} = ref [n];", "let f_rget {r::(int list) ref} = hd (deref r);", "let f_rset {r::(int list) ref} {n::int} = r := [n];",
    "let logr = ref [0];", "let f_log {n::int} = logr := (n:(deref logr));",
    "let f_nest {n::int} {s::string} = s^(tcl_eval [sprintf \"run %d\" n]);",
    "let f_say {s::string} = (printf \"%s\\n\" s) fseq s;",
    "let okd x = let s = x in s;",
    "import_from_tcl {imp_a :: string -> int -> string -> string};",
    "import_from_tcl {imp_b :: bool -> (string list) -> (int # string) -> string};",
]
EXPORTS = list(FUNS) + ["f_err", "f_sym", "f_mk", "f_val", "f_ref", "f_rget", "f_rset", "f_log", "f_nest", "f_say"]


class Gui:
    def __init__(self, r, big):
        self.r, self.big = r, big
        self.items, self.peer = [], []
        self.progs = {}          # id -> (ok, text, prints)
        self.np = self.nlog = 0

    def add(self, t, exp=None, keep=False, **kw):
        i = "i%d" % len(self.items)
        self.items.append(dict({"id": i, "t": t, "exp": exp, "keep": keep}, **kw))

    def word(self, special=True):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 5, 9]) if special else r.choice([1, 2, 5])
        s = "".join(r.choice(PLAIN + "    ;#$[]\"" if special and r.random() < .5 else PLAIN) for _ in range(n))
        if special and r.random() < .1:
            s += "\n" + r.choice(["", "x", " y"])
        return s

    def free(self):
        """Text without the restrictions of Tcl lists."""
        r = self.r
        s = self.word()
        if r.random() < .3:
            s += r.choice(["{", "}", "{}", "}{", "\\", "\\\\", "\\n", "a\\", "\t", "\\u", "100%", "%d%s"]) + self.word()
        if self.big and r.random() < .3:
            s += "".join(r.choice("abc def") for _ in range(7)) * r.choice([100, 500, 1170, 2340, 2341])
        if re.search(r"\\u[0-9a-fA-F]{4}", s):     # taken for an encoded character
            s = "plain"
        return s

    def val(self, t, top=True):
        r = self.r
        if t == "str":
            s = self.word()
            if top:
                s = s or "e"
                if self.big and r.random() < .15:
                    s = s + "lorem " * r.choice([300, 2729, 2731, 3500])
            return s
        if t == "int":
            return r.choice([0, 1, 2, -1, 7, 42, r.randint(-1000, 1000), 2 ** 31, -2 ** 31 - 1, 2 ** 64 + r.randint(0, 9), 10 ** 25])
        if t == "bool":
            return r.random() < .5
        if t[0] == "list":
            l = [self.val(t[1], False) for _ in range(r.choice([1, 2, 2, 3, 5]))]
            if top and len(l) == 1:
                l[0] = "w" if t[1] == "str" else l[0]
            return l
        return (self.val(t[1], False), self.val(t[2], False))

    def program(self, event=False, depth=0):
        """A Tcl program. Returns its number; self.progs has what it gives."""
        r = self.r
        self.np += 1
        pid = self.np
        ls, prints, ok, res = [], [], None, None
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            k = r.random()
            if k < .55:
                f = r.choice(list(FUNS))
                a, rt, _, m = FUNS[f]
                vs = [r.choice([0, 1, 3, 50, 1000, 5461, 5462, 9000] if self.big else [0, 1, 3, 20]) for _ in a] if f == "f_big" else [self.val(t) for t in a]
                ls.append("call %s %s" % (f, " ".join(protect(arg_text(t, v)) for t, v in zip(a, vs))))
                res = top_text(rt, m(*vs))
                ls.append("want 1 " + res.replace("\n", "\x01"))
            elif k < .62:
                ls += ["call f_err boom%d" % pid]
                if r.random() < .7:
                    ls += ["wantfail boom%d" % pid]
                else:
                    ok, res = False, "boom%d" % pid
                    break
            elif k < .66:
                ls += [r.choice(["call f_len", "call f_mul 3", "call f_mul 3 x", "call f_not 2", "call f_sel 1 3", "call f_val _FlObJeCt_000000",
                                 "call f_sum 1\\u0020b", "call f_ints 1-", "call f_sym vb", "call f_val junk", "call f_val _FlObJeCt_900000"]), "wantfail "]
            elif k < .74:
                self.nlog += 1
                ls += ["call f_log %d" % self.nlog, "want 1 {}"]
            elif k < .80:
                a = r.sample(range(1000), 2)
                which = r.choice([0, 1])
                kind = r.choice(["o", "r"])
                ls += ["call %s %d" % ("f_mk" if kind == "o" else "f_ref", a[0]), "wantany", "keep 0",
                       "call %s %d" % ("f_mk" if kind == "o" else "f_ref", a[1]), "wantany", "keep 1"]
                if kind == "r":
                    c = r.randint(1000, 2000)
                    if r.random() < .5:      # equal contents, different references
                        ls += ["call f_rset $%d %d" % (1 - which, a[which]), "want 1 {}", "call f_ref %d" % a[which], "wantany"]
                    ls += ["call f_rset $%d %d" % (1 - which, c), "want 1 {}"]
                ls += ["call %s $%d" % ("f_val" if kind == "o" else "f_rget", which), "want 1 %d" % a[which]]
            elif k < .88 and depth < 3:
                q = self.program(event, depth + 1)
                qok, qres, qp = self.progs[q]
                s = self.word() or "n"
                ls += ["call f_nest %d %s" % (q, protect(s))]
                prints += qp
                if qok:
                    res = top_text("str", s + qres)
                    ls += ["want 1 " + res.replace("\n", "\x01")]
                elif r.random() < .6:
                    ls += ["wantfail "]
                else:
                    ok, res = False, ""
                    break
            elif k < .94 and not event:
                s = self.word(False)
                prints.append(s)
                ls += ["call f_say " + s, "want 1 " + s]
            else:
                ls.append("wait %d" % r.choice([1, 3, 10, 50]))
        if ok is None:
            k = r.random()
            if k < .8:
                ok, res = True, self.free()
                ls.append("ret " + res.replace("\n", "\x01") if res else "ret")
            elif k < .9:
                ok, res = False, "bad%d %s" % (pid, self.free())
                ls.append("err " + res.replace("\n", "\x01"))
            else:
                ok, res = True, ""
                ls.append("ret")
        self.peer.append("\n".join(["P %d" % pid] + ls))
        self.progs[pid] = (ok, res, prints)
        return pid

    def okx(self, cmds, want):
        return "(\\s. s = %s => \"ok\" | s) (tcl_eval [%s]);" % (fl_text(want), ", ".join(cmds))

    def statement(self):
        r = self.r
        k = r.random()
        if k < .16:
            s = self.free()
            self.add(self.okx([fl_text("echo " + s)], s), ["guitext", '"ok"\nit::string\n:'])
        elif k < .22:
            m = "why%d" % r.randint(0, 999)
            self.add('tcl_eval [%s];' % fl_text("fail %s %s" % (m, self.free())), ["err", "Tcl failure: " + m])
        elif k < .58:
            cmds, prints, want, bad = [], [], "", None
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                p = self.program()
                ok, res, pr = self.progs[p]
                cmds.append('"run %d"' % p)
                prints += pr
                want = res
                if not ok:
                    bad = res
                    break
            pre = "".join(x + "\n" for x in prints)
            if bad is None:
                self.add(self.okx(cmds, want), ["guitext", pre + '"ok"\nit::string\n:'])
            elif r.random() < .5:
                self.add('(tcl_eval [%s]) catch "alt";' % ", ".join(cmds), ["guitext", pre + '"alt"\nit::string\n:'])
            else:
                self.add('tcl_eval [%s];' % ", ".join(cmds), ["guifail", pre, re.escape("Tcl failure: ") + ".*" + re.escape(bad.split("\n")[0][:12])])
        elif k < .70:
            n = r.choice([1, 2, 3])
            parts, outs = [], []
            for i in range(n):
                a, b = r.randint(-99, 99), r.randint(0, 99)
                j = r.random()
                if j < .4:
                    parts.append("%d+%d;" % (a, b) if a >= 0 else "(0-%d)+%d;" % (-a, b))
                    outs.append("%d\nit::int\n:" % (a + b))
                elif j < .7:
                    s = r.choice(["a;b", "c//d", "x<{y", "semi;colon;", "{;}", "q\\\"r;", ";"])
                    if s.count("{") != s.count("}"):
                        s = "plain;"
                    parts.append('"%s";' % s)
                    outs.append('"%s"\nit::string\n:' % s.replace('\\"', '"'))
                else:
                    parts.append("// comment; with \"quote\" <{\x01%d;" % b)
                    outs.append("%d\nit::int\n:" % b)
            sep = [r.choice(["", " ", "\x01", "\x01\x01"]) for _ in parts]
            self.add("".join(p + s for p, s in zip(parts, sep)), ["guimany", outs])
        elif k < .78:
            a, n, b = self.word(), self.val("int"), self.word()
            if r.random() < .5:
                want = "imp_a %s %d %s" % (res_text("str", a), n, res_text("str", b))
                call = "imp_a %s %s %s" % (fl_text(a), "(0-%d)" % -n if n < 0 else n, fl_text(b))
            else:
                l = [self.word() for _ in range(r.choice([0, 1, 3]))]
                t = r.random() < .5
                want = "imp_b %d %s %s" % (t, res_text(LS, l), res_text(PIS, (n, b)))
                call = "imp_b %s [%s] (%s, %s)" % ("T" if t else "F", ", ".join(fl_text(x) for x in l), "0-%d" % -n if n < 0 else n, fl_text(b))
            self.add("(\\s. s = %s => \"ok\" | s) (%s);" % (fl_text(want), call), ["guitext", '"ok"\nit::string\n:'])
        elif k < .90:
            n = r.choice([1, 2, 10, 60, 400] if self.big else [1, 2, 10])
            w = "".join(r.choice("abc; $[]#") for _ in range(r.choice([3, 20, 50]))).strip() + "."
            if r.random() < .7:
                self.add('for_n %d (\\i. printf "%%d %s\\n" i);' % (n, w), ["guiprint", "".join("%d %s\n" % (i, w) for i in range(1, n + 1))])
            else:
                m = r.choice([100, 1365, 3277, 4000] if self.big else [10, 100])
                self.add('printf "%%s\\n" (f_big %d);' % m, ["guiprint", "x y" * m + "\n"])
        elif k < .95:
            self.add("tcl_eval [];", None)
        else:
            self.add("deref logr;", None)


def gui_case(r):
    g = Gui(r, r.random() < .4)
    for d in DEFS:
        g.add(d, None, keep=True)
    g.add("letrec for_n n f = n <= 0 => () | (for_n (n-1) f) fseq (f n);", None, keep=True)
    g.add("; ".join("export_to_tcl " + e for e in EXPORTS) + ";", None, keep=True)
    g.add("#arm", None, keep=True)
    evs = [g.program(event=True) for _ in range(r.choice([0, 0, 1, 2, 4, 8]))]
    for _ in range(r.choice([3, 6, 10, 16])):
        g.statement()
    g.add("#events", None, keep=True)
    g.add("#disarm", None, keep=True)
    g.add("deref logr;", None, keep=True)
    g.items[-1]["log"] = 1
    g.add("40+2;", ["guitext", "42\nit::int\n:"], keep=True)
    peer = "\n".join(g.peer + ["V %d" % e for e in evs]) + "\n"
    return g, peer


def norm(o):
    return fw.strip_prompt(o).rstrip("\n")


def noprompt(x):
    return re.sub(r"^(\n?: ?)+|\n: ?(?=$|\n|:)", "", x)


def quiet(err):
    return not re.sub(r"Stack trace:\n(( *\d+:|\.\.\.).*\n|\n)*", "", err).strip()      # interrupts answered "s"


def x_guitext(exp, out, err):
    t = lambda x: noprompt(x).strip()
    if t(out) != t(exp[1]) or not quiet(err):
        return "expected output %r, got %r; messages %r" % (exp[1][:300], out[:300], err[:300])


def x_guifail(exp, out, err):
    if not noprompt(out).startswith(exp[1].rstrip("\n")):
        return "expected output starting %r, got %r" % (exp[1][:200], out[:300])
    return None if re.search(exp[2], err, re.S) else "no message matching %r: %r" % (exp[2], err[:300])


def flat(s):
    return re.sub(r"(^|\n):(\s|$)", r"\1\2", re.sub(r"\n: ", "\n", s)).strip()


def x_guimany(exp, out, err):
    want = "\n".join(x[:-2] for x in exp[1])
    got = re.sub(r"(?m)^(: )+", "", noprompt(out)).strip()
    return None if got == want and quiet(err) else "expected %r, got %r; messages %r" % (want, got[:300], err[:200])


def x_guiprint(exp, out, err):
    out = noprompt(out) + "\n"
    return None if out.startswith(exp[1]) and len(out) < len(exp[1]) + 60 and quiet(err) else \
        "expected output %r.. (%d characters), got %r.. (%d); messages %r" % (exp[1][:80], len(exp[1]), out[:80], len(out), err[:200])


fw.EXPS.update(guitext=x_guitext, guifail=x_guifail, guimany=x_guimany, guiprint=x_guiprint)


@oracle
def gui(case, results):
    """Outputs; what the front end's calls returned; every call answered once; effects once and in order."""
    r, ph = results[-1], case["phases"][-1]
    bad = []
    lost = lost_lines(r)
    for m in re.finditer(r"^MISMATCH (.*)$", r.log, re.M):
        if case.get("intr") and re.search(r"got 0 .*Interrupt", m.group(0)):
            continue
        bad.append(("peer:" + re.sub(r"\d+.*", "", m.group(1)), "front end: " + m.group(1)[:400]))
    m = re.search(r"^(GUISTUCK.*)$", r.log, re.M)
    if m:
        bad.append(("stuck", "no progress: " + m.group(1)))
    m = re.search(r"^(NOPROC.*|BADOUT.*)$", r.log, re.M)
    if m:
        bad.append(("peer:" + m.group(1).split()[0], m.group(1)[:300]))
    if bad and not lost:
        return bad
    bad += ORACLES["after_interrupts" if case.get("intr") else "expect_items"](dict(case, inner="expect_items"), results)
    calls = [int(x) for x in re.findall(r"^CALL \d+ f_log (\d+)$", r.log, re.M)]
    it = [i for i in ph["items"] if i.get("log")]
    if it and not bad:
        out = r.lines(ph["line_of"][it[0]["id"]])
        m = re.search(r"\[([\d,]*)\]", out)
        got = [int(x) for x in m.group(1).split(",")][::-1][1:] if m else None
        if got is None:
            if not lost:
                bad.append(("log", "no log: %r" % out[:200]))
        elif not case.get("intr"):
            if got != calls:
                bad.append(("log", "calls made %s, effects %s" % (calls, got)))
        else:
            # While the user is asked about an interrupt, other calls are refused.
            done = [int(x) for a, x in re.findall(r"^CALL (\d+) f_log (\d+)$", r.log, re.M) if re.search(r"^CBRES %s 1" % a, r.log, re.M)]
            if len(set(got)) < len(got) or not set(done) <= set(got) <= set(calls):
                bad.append(("log", "calls made %s, answered %s, effects %s" % (calls, done, got)))
    return bad
