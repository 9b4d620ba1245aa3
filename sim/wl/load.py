"""Loading files: a loaded file's statements run in order, up to the first that fails."""
import os, re
import framework as fw
from framework import oracle, ORACLES, strip_prompt
import flgen, session
from flgen import fl_str

WORD = re.compile(r"[A-Za-z_][A-Za-z_0-9']*")
LIB = "/sim/lib"


class World:
    """The files, and what running them does."""

    def __init__(self, files):
        self.files = files               # path -> list of ops
        self.defined, self.cloaded, self.out = set(), [], []

    def where(self, name, opens):
        """The file a name stands for, or None. opens gives the outcome of each attempt."""
        for p in (name, LIB + "/" + name):
            key = p[5:] if p.startswith("/sim/") else p
            if opens is not None:
                # every attempt is in the log
                if not opens or opens[0][0] != p:
                    raise Mismatch("file %s was not the next one opened (%r)" % (p, opens[:1]))
                failed = opens.pop(0)[1]
                if failed:
                    continue
            if key in self.files:
                return key
        return None

    def load(self, name, opens, depth=0):
        f = self.where(name, opens)
        if f is None:
            return False
        return self.run(f, opens, depth)

    def run(self, f, opens, depth):
        if depth > 30:
            raise Mismatch("too deep")
        for op in self.files[f]:
            k = op[0]
            if k == "mark":
                self.out.append(op[1])
            elif k == "def":
                if not set(op[2]) <= self.defined:
                    return False
                self.defined.add(op[1])
            elif k == "fail":
                return False
            elif k == "load":
                ok = self.load(op[1], opens, depth + 1)
                if op[2] == "plain" and not ok:
                    return False
                if op[2] == "show":
                    self.out.append("loaded" if ok else "not loaded")
            elif k == "cload":
                if not self.cload(op[1], opens, depth + 1):
                    return False
        return True

    def cload(self, name, opens, depth=0):
        """False if the statement fails."""
        cand = [n[5:] if n.startswith("/sim/") else n for n in (name, LIB + "/" + name)]
        if any(c in self.cloaded for c in cand if c in self.files):
            return True
        for c in cand:
            if c in self.files:
                if not self.load("/sim/" + c, opens, depth):
                    return False
                self.cloaded.append(c)
                return True
        return False


class Mismatch(Exception):
    pass


class Loads:
    def __init__(self, r, nfiles=None):
        self.r = r
        self.s = session.Sess(r, arm=False)
        self.s.items.append({"id": "lib", "t": 'update_vossrc "VOSS-LIBRARY-DIRECTORY" "%s";' % LIB, "exp": None, "keep": True})
        self.s.items.append({"id": "top", "t": "let top_dir = DIR;", "exp": None, "keep": True})
        self.s.items.append({"id": "arm", "t": "#arm", "exp": None, "keep": True})
        self.text, self.ops = {}, {}
        self.vals = {}           # name -> (type, value)
        self.deps = {}
        self.k = 0
        n = nfiles or r.randint(2, 6)
        # file i loads only files made before it
        self.paths = []
        for i in range(n):
            d = r.choice(["", "", "sub/", "lib/", "sub/deep/"])
            self.make(d + "m%d.fl" % i)

    def ref(self, me):
        """A way to name an existing (or missing) file: (fl expression, name passed to load)."""
        r = self.r
        mydir = os.path.dirname(me) + "/" if "/" in me else ""
        if r.random() < .12 or not self.paths:
            n = "missing%d.fl" % r.randint(0, 9)
            return '"%s"' % n, n
        p = r.choice(self.paths)
        c = [('"%s"' % p, p), ('"/sim/%s"' % p, "/sim/" + p), ('("%s"^"%s")' % (p[:3], p[3:]), p)]
        if p.startswith("lib/"):
            c += [('"%s"' % p[4:], p[4:])] * 2
        if os.path.dirname(p) == os.path.dirname(me) or mydir == "":
            q = p[len(mydir):]
            c += [('(DIR^"%s")' % q, "/sim/" + p)] * 2
        return r.choice(c)

    def make(self, path):
        r = self.r
        lines, ops = [], []
        line = [1]

        def put(t):
            lines.append(t)
            line[0] += t.count("\n") + 1
        d = "/sim/" + (os.path.dirname(path) + "/" if "/" in path else "")
        ifs = []
        for _ in range(r.randint(3, 12)):
            k = r.random()
            dead = any(not x for x in ifs)
            if k < .3:
                self.k += 1
                n = "lv%d" % self.k
                t, tx, v = self.s.value(d=r.choice([1, 2, 3]))
                used = [w for w in WORD.findall(tx) if w in self.vals]
                if dead:
                    put("let %s = %s;" % (n, tx))
                    continue
                if r.random() < .3 and t == "int":
                    put("let %s =\n    let a%s = %s in\n  // comment here\n    a%s;" % (n, n, tx, n))
                else:
                    put("let %s = %s;" % (n, tx))
                ops.append(["def", n, sorted(set(used))])
                self.vals[n] = (t, v)
                self.s.g.vars.append((n, t))
                self.s.env[n] = v
            elif k < .5:
                self.k += 1
                c = r.randrange(4)
                if c == 0:
                    t = "%s %d %s %s" % (self.k, line[0], "/sim/" + path, d)
                    put('show_line (sprintf "%d %%d %%s %%s" __LINE__ __FILE__ DIR);' % self.k)
                elif c == 1:
                    z = r.choice(["x", "yz"]) * r.choice([10, 300, 1100, 3900])
                    t = "%d %d" % (self.k, len(z))
                    put('show_line (sprintf "%d %%d" (strlen "%s"));' % (self.k, z))
                elif c == 2:
                    a = "q" * r.randint(0, 70)
                    t = "%d %s\n%s" % (self.k, a, a)
                    put('show_line "%d %s\n%s";' % (self.k, a, a))
                else:
                    t = "%d ab" % self.k
                    put('show_line ("%d a"^"\\\n   "b");' .replace('"^"\\\n   "', '"\\\n   "') % self.k)
                if not dead:
                    ops.append(["mark", t])
            elif k < .62 and (self.paths or r.random() < .5):
                x, n = self.ref(path)
                c = r.randrange(4)
                if c == 0:
                    put("load %s fseq ();" % x)
                    op = ["load", n, "plain"]
                elif c < 3:
                    put('show_line ((load %s => "loaded" | "odd") catch "not loaded");' % x)
                    op = ["load", n, "show"]
                else:
                    put("cload %s;" % x)
                    op = ["cload", n]
                if not dead:
                    ops.append(op)
            elif k < .68:
                c = r.choice(['let bad = 1 + "a";', "let bad = (3 ;", "let bad = undef_x 3;", ");", "(1/0);", "let bad = (\\x. x x) 3;", 'show_line (error "zap");',
                              "let bad {q::int} = q ^ \"a\";", "qq := 3;", "let bad = 3 then ;", "let bad = [1,2", "clet bad q = q + zz;"])
                put(c)
                if not dead:
                    ops.append(["fail"])
            elif k < .8:
                c = r.randrange(5)
                if c == 0:
                    put("// a comment with \"quote and (paren " + "-" * r.choice([0, 5, 200]))
                elif c == 1:
                    put("\n" * r.randint(0, 6))
                elif c == 2:
                    # push the next statement towards an input buffer boundary
                    at = sum(len(x) + 1 for x in lines)
                    gap = r.choice([4096, 8192, 16384]) - at % 4096 - r.randint(0, 60)
                    if gap > 10:
                        put("//" + "\n//".join(["." * 70] * (gap // 73) + ["." * (gap % 73)]))
                elif c == 3:
                    put("   \t /* " .replace("/* ", "") + "\t")
                else:
                    put("churn %d fseq ();" % r.choice([10, 300]))
            elif k < .9:
                c = r.randrange(3)
                if c == 0 and not ifs:
                    put("#define ON_%s" % path.replace("/", "_").replace(".", "_"))
                    put("#ifdef ON_%s" % path.replace("/", "_").replace(".", "_"))
                    ifs.append(True)
                elif c == 1 and len(ifs) < 3:
                    put("#ifdef OFF_%d" % r.randint(0, 5))
                    ifs.append(False)
                elif ifs:
                    if r.random() < .5:
                        put("#else")
                        ifs[-1] = not ifs[-1]
                    else:
                        put("#endif")
                        ifs.pop()
            else:
                self.k += 1
                n = "L%d" % self.k
                put("lettype lt%s = A%s int | B%s string;" % (n, n, n))
                put('let un%s (A%s i) = int2str i /\\ un%s (B%s s) = s;' % (n, n, n, n))
                put('show_line ((un%s (A%s %d)) ^ (un%s (B%s "z")));' % (n, n, self.k, n, n))
                if not dead:
                    ops.append(["mark", "%dz" % self.k])
        while ifs:
            put("#endif")
            ifs.pop()
        text = "\n".join(lines) + ("\n" if r.random() < .8 or (lines and lines[-1].startswith("#")) else "")
        self.text[path], self.ops[path] = text, ops
        self.paths.append(path)

    def reach(self, name):
        """All names and files a load may touch."""
        seen, todo = set(), [name]
        while todo:
            n = todo.pop()
            for p in (n, LIB + "/" + n):
                k = p[5:] if p.startswith("/sim/") else p
                if k in self.ops and k not in seen:
                    seen.add(k)
                    todo += [o[1] for o in self.ops[k] if o[0] in ("load", "cload")]
        return seen

    def script(self):
        s, r = self.s, self.r
        for _ in range(r.randint(5, 12)):
            k = r.random()
            if k < .5:
                x, n = self.ref("")
                c = r.randrange(4)
                if c == 0:
                    i = s.add('load %s fseq show_line "done";' % x)
                    op = ["load", n, "plain"]
                elif c < 3:
                    i = s.add('show_line ((load %s => "loaded" | "odd") catch "not loaded");' % x)
                    op = ["load", n, "show"]
                else:
                    i = s.add('cload %s fseq show_line "done";' % x)
                    op = ["cload", n]
                s.items[-1]["op"] = op
                fs = self.reach(n)
                s.items[-1]["defs"] = sorted({o[1] for f in fs for o in self.ops[f] if o[0] == "def"} | {"file:" + f for f in fs})
                s.items[-1]["uses"] = s.items[-1]["defs"] + sorted({d for f in fs for o in self.ops[f] if o[0] == "def" for d in o[2]})
            elif k < .9:
                if not self.vals:
                    continue
                n = r.choice(sorted(self.vals))
                t, v = self.vals[n]
                s.show(n, t, v)
                s.items[-1]["needs"] = [n]
            else:
                s.add('show_line (DIR = top_dir => "top" | "lost: "^DIR);', ["text", "top"])
                s.items[-1]["keep"] = True
        s.add("#disarm", None, keep=True)
        for n in r.sample(sorted(self.vals), min(3, len(self.vals))):
            t, v = self.vals[n]
            s.show(n, t, v)
            s.items[-1]["needs"] = [n]
        s.add('show_line (DIR = top_dir => "top" | "lost: "^DIR);', ["text", "top"])
        s.add('show_line (sprintf "%s" __FILE__);', ["text", "stdin"])
        s.add("quit;", None, keep=True)


def events(r):
    """Per script line: the files tried, in order, with whether that failed."""
    out, cur, last = {}, 0, None
    for l in r.log.split("\n"):
        m = re.match(r"CMD (\d+)\b", l)
        if m:
            cur = int(m.group(1))
            continue
        m = re.match(r"OPEN (\S+) r$", l)
        if m:
            last = [m.group(1), False]
            out.setdefault(cur, []).append(last)
        elif l.startswith("FIRE fserr") and last:
            last[1] = True
        if not l.startswith("OPEN"):
            last = None if not l.startswith("FIRE") else last
    return out


@oracle
def loads(case, results):
    ph, r = case["phases"][0], results[0]
    ev = events(r)
    w = World(case["ops"])
    items = []
    bad = []
    for it in ph["items"]:
        n = ph["line_of"][it["id"]]
        it = dict(it)
        if it.get("op") and it.get("exp") is None and not it.get("lost"):
            op = it["op"]
            w.out = []
            try:
                opens = ev.get(n, [])[:] if case.get("faults") else None
                if op[0] == "load":
                    ok = w.load(op[1], opens)
                    if op[2] == "show":
                        w.out.append("loaded" if ok else "not loaded")
                        ok = True
                else:
                    ok = w.cload(op[1], opens)
                if opens:
                    raise Mismatch("opened %r, which no statement asked for" % opens[:3])
            except Mismatch as e:
                bad.append(("item:" + it["id"], "%s: %s" % (it["t"][:200], e)))
                break
            if ok and 'show_line "done"' in it["t"]:
                w.out.append("done")
            it["exp"] = ["loadout", "\n".join(w.out), ok]
        elif it.get("needs") and it.get("exp") is not None:
            if not set(it["needs"]) <= w.defined:
                it["exp"] = ["err", "Unidentified"]
        items.append(it)
    if bad and r.how == "exit":
        return bad
    c2 = dict(case)
    c2["phases"] = [dict(ph, items=items)]
    return fw.expect_items(c2, results) or bad


def _loadout(exp, out, err):
    o = strip_prompt(out).rstrip("\n")
    if o != exp[1].rstrip("\n"):
        return "expected output %r, got %r; messages %r" % (exp[1][-400:], o[-400:], err[-300:])
    if not exp[2] and not re.search(r"Failure|Cannot", err):
        return "a statement in a loaded file failed but no failure was reported: %r" % err[-300:]
    return None


fw.EXPS["loadout"] = _loadout


def load_case(r):
    l = Loads(r)
    l.script()
    return l
