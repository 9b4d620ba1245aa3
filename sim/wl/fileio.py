"""Streams: what was written and closed successfully is what is read back and what is on disk."""
import os, re
import framework as fw
from framework import oracle, POST, strip_prompt
from flgen import fl_str
import session

PRE = "\n".join([
    'let show_line s = fprintf stdout "%s\\n" s;',
    'letrec gl k n = n = 0 => "" | (sprintf "%d,%d\\n" k n) ^ (gl k (n-1));',
    'letrec rdl fp = let l = fgets fp then l = "" => [] | l:(rdl fp);',
    'let cat l = itlist (\\a.\\b. a ^ b) l "";',
    'let show_str s = fprintf stdout "<%s>\\n" s;',
    # everything in one statement; the stream is closed whatever happens in between
    'let rd_lines n = let fp = fopen n "r" then let l = rdl fp then (fclose fp) fseq l;',
    'let rd_all n = let fp = fopen n "r" then let s = fget fp then let e = ((fgets fp) = "") AND (feof fp) then (fclose fp) fseq (s ^ (e => "" | "NOT-AT-EOF"));',
    'letrec rd2 fa fb = let a = fgets fa then let b = fgets fb then (a = "") AND (b = "") => [] | (a,b):(rd2 fa fb);',
])


def gl(k, n):
    return "".join("%d,%d\n" % (k, i) for i in range(n, 0, -1))


CH = "abcdefXYZ 0123456789.,;:-_(){}[]%#~"


def data(r):
    """(fl text, content) of one chunk."""
    k = r.randrange(8)
    if k == 0:
        s = "".join(r.choice(CH) for _ in range(r.randint(0, 40)))
        return fl_str(s), s
    if k == 1:
        s = "\n".join("".join(r.choice(CH) for _ in range(r.choice([0, 1, 5, 30]))) for _ in range(r.randint(1, 6)))
        return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n"), s
    if k < 5:
        a, n = r.randint(0, 99999), r.randint(1, 250)
        return "(gl %d %d)" % (a, n), gl(a, n)
    if k == 5:
        c, n = r.choice("qz"), r.choice([1, 63, 64, 65, 127, 128, 511, 512, 513, 1023, 1024])
        return '(cat (replicate %d "%s"))' % (n, c), c * n
    if k == 6:
        return '(let z = gl 7 100 in z ^ z ^ z ^ z ^ z ^ z)', gl(7, 100) * 6
    return '""', ""


def fmt(r):
    """(fprintf format and arguments, content)."""
    k = r.randrange(7)
    if k < 3:
        t, s = data(r)
        return '"%%s" %s' % t, s
    if k == 3:
        a, b = r.randint(-10**6, 10**6), "".join(r.choice(CH) for _ in range(r.randint(0, 9)))
        return '"%%d|%%s\\n" (%d) %s' % (a, fl_str(b)), "%d|%s\n" % (a, b)
    if k == 4:
        a = r.randint(0, 10**6)
        return '"%%x %%%%\\n" %d' % a, "%x %%\n" % a
    if k == 5:
        a, w = r.randint(0, 999), r.randint(4, 9)
        return '"%%%dd;" %d' % (w, a), "%*d;" % (w, a)
    t, s = data(r)
    return '"[%%s]\\n" %s' % t, "[%s]\n" % s


class Files:
    def __init__(self, r):
        self.r, self.k, self.items, self.ev = r, 0, [], []
        self.items.append({"id": "pre", "t": PRE, "exp": None, "keep": True})
        self.items.append({"id": "arm", "t": "#arm", "exp": None, "keep": True})
        self.names = ["f%d.txt" % i for i in range(4)] + ["sub_%d" % i for i in range(2)]
        self.open = {}       # stream variable -> [name, mode, content, [item ids]]

    def add(self, t, exp=None, keep=False):
        self.k += 1
        i = "i%d" % self.k
        self.items.append({"id": i, "t": t, "exp": exp, "keep": keep})
        return i

    def free(self):
        busy = [o[0] for o in self.open.values()]
        return [n for n in self.names if n not in busy]

    def o_write1(self):
        """Open, write, close in one statement."""
        n = self.r.choice(self.free())
        mode = self.r.choice(["w", "w", "a"])
        parts, s = [], ""
        for _ in range(self.r.randint(0, 5)):
            t, c = fmt(self.r)
            parts.append("(fprintf fp %s)" % t)
            if self.r.random() < .2:
                parts.append("(fflush fp)")
            s += c
        i = self.add('show_line (int2str (let fp = fopen "%s" "%s" then %s(fclose fp)));' % (n, mode, "".join(p + " fseq " for p in parts)))
        self.ev.append(["write", i, n, mode, s])

    def o_open(self):
        if len(self.open) >= 3 or not self.free():
            return
        n = self.r.choice(self.free())
        mode = self.r.choice(["w", "w", "a"])
        v = "s%d" % self.k
        # the stream is opened by this statement, not when first used
        i = self.add('let %s = fopen "%s" "%s";' % (v, n, mode), None)
        j = self.add('show_line (stream2filename %s);' % v)
        self.open[v] = [n, mode, "", j]
        self.ev.append(["open", j, n])

    def o_chunk(self):
        if not self.open:
            return
        v = self.r.choice(sorted(self.open))
        t, c = fmt(self.r)
        self.add("fprintf %s %s;" % (v, t))
        if self.r.random() < .2:
            self.add("fflush %s;" % v)
        self.open[v][2] += c

    def o_close(self):
        if not self.open:
            return
        v = self.r.choice(sorted(self.open))
        n, mode, c, j = self.open.pop(v)
        i = self.add("show_line (int2str (fclose %s));" % v)
        self.ev.append(["write", i, n, mode, c])
        if self.r.random() < .3:
            k = self.r.randrange(3)
            self.add(["fclose %s;" % v, 'fprintf %s "zombie";' % v, "fgets %s;" % v][k], ["err", "Failure"])

    def o_again(self):
        """A file that is open cannot be opened a second time."""
        if not self.open:
            return
        v = self.r.choice(sorted(self.open))
        self.ev.append(["again", self.add('fopen "%s" "r";' % self.open[v][0]), self.open[v][3]])

    def o_read(self):
        n = self.r.choice(self.free())
        k = self.r.randrange(6)
        if k < 3:
            i = self.add('show_str (cat (rd_lines "%s"));' % n)
            self.ev.append(["read", i, n])
        elif k == 3:
            i = self.add('show_str (rd_all "%s");' % n)
            self.ev.append(["read", i, n])
        elif k == 4:
            i = self.add('show_line (int2str (length (rd_lines "%s")));' % n)
            self.ev.append(["lines", i, n])
        else:
            i = self.add('show_line (file_exists "%s" => "yes" | "no");' % n)
            self.ev.append(["exists", i, n])

    def o_read2(self):
        f = self.free()
        if len(f) < 2:
            return
        a, b = self.r.sample(f, 2)
        i = self.add('let fa = fopen "%s" "r" then let fb = (fopen "%s" "r") gen_catch (\\m. (fclose fa) fseq (error m)) then let l = rd2 fa fb then (fclose fa) fseq (fclose fb) fseq (show_str (cat (map fst l))) fseq (show_str (cat (map snd l)));' % (a, b))
        self.ev.append(["read2", i, a, b])

    def o_part(self):
        """Read some lines, leave, and start again from the beginning."""
        n = self.r.choice(self.free())
        k = self.r.randint(1, 4)
        body = " then ".join("let l%d = fgets fp" % j for j in range(k))
        i = self.add('show_str (let fp = fopen "%s" "r" then %s then (fclose fp) fseq (%s));' % (n, body, " ^ ".join("l%d" % j for j in range(k))))
        self.ev.append(["head", i, n, k])

    def o_pipe(self):
        n = self.r.choice(self.free())
        if self.r.random() < .5:
            i = self.add('let fp = fopen "cat %s" "|r" then let l = rdl fp then (fclose fp) fseq (show_str (cat l));' % n)
            self.ev.append(["read", i, n])
            return
        t, c = fmt(self.r)
        t2, c2 = fmt(self.r)
        i = self.add('show_line (int2str (let fp = fopen "cat > %s" "|w" then (fprintf fp %s) fseq (fprintf fp %s) fseq (fclose fp)));' % (n, t, t2))
        self.ev.append(["write", i, n, "w", c + c2])

    def o_temp(self):
        t, c = fmt(self.r)
        v = "tn%d" % self.k
        self.add('let %s = let fp = mktemp "tt" then (fprintf fp %s) fseq let n = stream2filename fp then (fclose fp) fseq n;' % (v, t), None, keep=True)
        i = self.add("show_str (cat (rd_lines %s));" % v)
        self.ev.append(["temp", i, c])

    def o_garbage(self):
        self.add("show_line (int2str (strlen (gl %d %d)));" % (self.k, self.r.choice([20, 60])))


def file_case(r, n=None, quiet=False):
    s = Files(r)
    ops = ["o_write1"] * 5 + ["o_open"] * 3 + ["o_chunk"] * 8 + ["o_close"] * 3 + ["o_again"] + ["o_read"] * 5 + ["o_read2", "o_part", "o_pipe", "o_temp", "o_garbage"]
    for _ in range(n or r.randint(8, 40)):
        getattr(s, r.choice(ops))()
    while s.open and r.random() < .9:
        s.o_close()
    s.left = {o[0]: [o[2], o[3]] for o in s.open.values()}
    for _ in range(3):
        s.o_read()
    s.add("#disarm", None, keep=True)
    s.add("quit;", None, keep=True)
    return s




def disk(d, r):
    out = {}
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if os.path.isfile(p) and not re.fullmatch(r"wlog\d+|log|out|err|plan|script", f):
            out[f] = open(p, "rb").read().decode("latin-1")
    return out


POST["disk"] = disk


@oracle
def file_events(case, results):
    """Follows the script: what each file must hold (None: a write failed, so unknown)."""
    bad = []
    ph, r = case["phases"][0], results[0]
    crashed = r.how == "crash"
    if not crashed:
        bad += fw.ORACLES["expect_items"](dict(case, phases=[ph]), results[:1])
    sec, err = r.sections("out"), r.sections("err")
    ln = ph["line_of"]
    lossy = case.get("lossy")          # opening a file may fail, a write may fail
    last = max(sec)
    files, maybe, saved = {}, {}, {}
    have = set(it["id"] for it in ph["items"])

    def ok_fail(i, what):
        if lossy and re.search("Failure|annot", err.get(ln[i], "")):
            return True
        bad.append(("item:" + i, "%s: output %r; messages %r" % (what, sec.get(ln[i], "")[:200], err.get(ln[i], "")[:200])))
        return False

    for e in case["events"]:
        i = e[1]
        if i not in have:
            if e[0] == "write":
                maybe[e[2]] = True
                files.pop(e[2], None)
            continue
        n = ln[i]
        if n not in sec or (crashed and n >= last):
            if not crashed:
                continue
            if e[0] == "write":
                maybe[e[2]] = True       # how much was written is not known
            continue
        o = strip_prompt(sec[n]).rstrip("\n")
        if e[0] == "write":
            name, mode, c = e[2:]
            if name in saved:
                (m,) = saved.pop(name)
                if m:
                    maybe[name] = m
                else:
                    maybe.pop(name, None)
            old = files.get(name)
            if o == "0":
                if mode == "w":
                    files[name] = c
                    maybe.pop(name, None)
                elif name not in maybe:
                    files[name] = (old or "") + c
            else:
                if not lossy or not (re.fullmatch(r"-?\d+", o) or "Failure" in err.get(n, "")):
                    bad.append(("item:" + i, "closing %s gives %r; messages %r" % (name, o[:100], err.get(n, "")[:200])))
                maybe[name] = True
        elif e[0] == "open":
            if o != e[2]:
                ok_fail(i, "opening %s for writing" % e[2])
            saved[e[2]] = (maybe.get(e[2]),)
            maybe[e[2]] = True
        elif e[0] == "again":
            if e[2] in have and strip_prompt(sec.get(ln[e[2]], "")).rstrip("\n") and "Failure" not in err.get(n, ""):
                bad.append(("item:" + i, "a file open for writing was opened again"))
        elif e[0] in ("read", "lines", "head"):
            name = e[2]
            if maybe.get(name):
                continue
            if name not in files:
                if "Failure" not in err.get(n, "") and o != "<>" and not (e[0] == "lines" and o == "0"):
                    bad.append(("item:" + i, "reading %s, which does not exist, gives %r" % (name, o[:100])))
                continue
            c = files[name]
            ls = c.splitlines(True) if c else []
            want = "<%s>" % c if e[0] == "read" else str(c.count("\n") + (1 if c and not c.endswith("\n") else 0)) if e[0] == "lines" else "<%s>" % "".join(lines_of(c)[:e[3]])
            if o != want and not (lossy and "Failure" in err.get(n, "")):
                bad.append(("item:" + i, "%s holds %r (%d characters) but reading gives %r (%d); messages %r" % (name, c[:80], len(c), o[:80], len(o) - 2, err.get(n, "")[:150])))
        elif e[0] == "read2":
            a, b = e[2], e[3]
            if maybe.get(a) or maybe.get(b) or a not in files or b not in files:
                continue
            want = "<%s>\n<%s>" % (files[a], files[b])
            if o != want and not (lossy and "Failure" in err.get(n, "")):
                bad.append(("item:" + i, "reading %s and %s together gives %r" % (a, b, o[:200])))
        elif e[0] == "temp":
            if o != "<%s>" % e[2] and not lossy:
                bad.append(("item:" + i, "temporary file read back as %r instead of %r; %r" % (o[:100], e[2][:100], err.get(n, "")[:200])))
        elif e[0] == "exists":
            if not maybe.get(e[2]) and e[2] not in [x for x in maybe] and o != ("yes" if e[2] in files else "no"):
                bad.append(("item:" + i, "file_exists %s gives %r" % (e[2], o)))
    for name, c in files.items():
        if not maybe.get(name) and r.dir.get(name) != c:
            bad.append(("disk:" + name, "%s was closed without error; it must hold %r (%d characters), the disk has %r" %
                        (name, c[:80], len(c), None if name not in r.dir else (r.dir[name][:80], len(r.dir[name])))))
    return bad


def lines_of(c):
    return re.findall(r"[^\n]*\n|[^\n]+", c)
