"""BDD workloads: symbolic functions over up to 9 variables, held, dropped, combined,
while the BDD collector and the dynamic reordering run where the seed says."""
import random
from framework import shown, oracle, strip_prompt, ORACLES, expect_items
import framework as fw
import flgen

NAMES = ["p", "q3", "r", "a[0]", "a[1]", "zz", "b", "mm[12]", "k"]


class BM:
    """Truth tables over n variables."""

    def __init__(self, names):
        self.names, self.n = names, len(names)
        self.rows = 1 << self.n
        self.full = (1 << self.rows) - 1
        self.v = []
        for i in range(self.n):
            block = ((1 << (1 << i)) - 1) << (1 << i)
            m, w = block, 2 << i
            while w < self.rows:
                m |= m << w
                w *= 2
            self.v.append(m & self.full)

    def cof(self, m, i, b):
        s = 1 << i
        if b:
            h = m & self.v[i]
            return h | (h >> s)
        l = m & ~self.v[i] & self.full
        return l | (l << s) & self.full

    def quant(self, m, i, forall):
        a, b = self.cof(m, i, 0), self.cof(m, i, 1)
        return a & b if forall else a | b

    def subst(self, m, sub):
        """sub: {i: table}; simultaneous. Shannon expansion over the variables substituted."""
        items = sorted(sub.items())

        def go(m, k):
            if k == len(items):
                return m
            i, f = items[k]
            hi, lo = go(self.cof(m, i, 1), k + 1), go(self.cof(m, i, 0), k + 1)
            return (f & hi) | (~f & lo & self.full)
        # the cofactors no longer depend on the substituted variables, so f may
        return go(m, 0)

    def dep(self, m):
        return [i for i in range(self.n) if self.cof(m, i, 0) != self.cof(m, i, 1)]

    def size(self, ms, order):
        """Nodes of the shared reduced graph with complement edges."""
        seen = set()

        def go(m, k):
            if m == 0 or m == self.full:
                return
            key = min(m, ~m & self.full)
            while self.cof(m, order[k], 0) == self.cof(m, order[k], 1):
                k += 1
            if key in seen:
                return
            seen.add(key)
            go(self.cof(m, order[k], 0), k + 1)
            go(self.cof(m, order[k], 1), k + 1)
        for m in ms:
            go(m, 0)
        return len(seen)

    def parse(self, s):
        pos = 0
        v = self.v
        ix = {n: i for i, n in enumerate(self.names)}

        def go(path):
            nonlocal pos
            c = s[pos]
            if c == "1":
                pos += 1
                return self.full
            if c == "0":
                pos += 1
                return 0
            if c != "(":
                raise ValueError("not a dump at %d" % pos)
            j = s.index(" ", pos)
            n = s[pos + 1:j]
            if n not in ix:
                raise ValueError("unknown variable " + n)
            pos = j + 1
            i = ix[n]
            if i in path:
                raise ValueError("variable %s twice on a path" % n)
            h = go(path + [i])
            pos += 1
            l = go(path + [i])
            if s[pos] != ")":
                raise ValueError("missing )")
            pos += 1
            if h == l:
                raise ValueError("redundant node")
            for a, b in zip(path + [i], (path + [i])[1:]):
                if self.before.setdefault((a, b), True) and (b, a) in self.before:
                    raise ValueError("variables %s and %s in both orders" % (self.names[a], self.names[b]))
            return (v[i] & h) | (~v[i] & l & self.full)
        self.before = {}
        m = go([])
        if pos != len(s):
            raise ValueError("trailing text")
        return m


class BSess:
    def __init__(self, r, n=None, pref=()):
        self.r = r
        self.n = n or r.choice([4, 5, 6, 7, 8, 9])
        self.m = BM(r.sample(NAMES, self.n))
        self.items, self.k = [], 0
        self.keep("\n".join([flgen.PRELUDE[0], flgen.PRELUDE[-2], flgen.PRELUDE[-1], "let sh_int {i::int} = int2str i;", "let sh_str {s::string} = s;", flgen.PRELUDE[3],
                             'update_vossrc "VERBOSE-DYNAMIC-ORDERING" "NO";',
                             "let bfroml l = itlist (\\x.\\y. (variable x) XOR y) l F;"] + list(pref)), "pre")
        self.keep("#arm", "arm")
        self.f = {}              # name -> table
        self.lists = {}
        self.V = lambda i: '(variable "%s")' % self.m.names[i]

    def keep(self, t, i):
        self.items.append({"id": i, "t": t, "exp": None, "keep": True})

    def add(self, t, exp=None, **kw):
        self.k += 1
        it = {"id": "i%d" % self.k, "t": t, "exp": exp}
        it.update(kw)
        self.items.append(it)
        return it

    def pick(self):
        """An operand: a held function or a variable or an expression over them."""
        r = self.r
        k = r.random()
        if self.f and k < .7:
            n = r.choice(sorted(self.f))
            return n, self.f[n]
        if self.lists and k < .78:
            n = r.choice(sorted(self.lists))
            i = r.randrange(len(self.lists[n]))
            return "(el %d %s)" % (i + 1, n), self.lists[n][i]
        i = r.randrange(self.n)
        if r.random() < .2:
            return "(NOT %s)" % self.V(i), ~self.m.v[i] & self.m.full
        return self.V(i), self.m.v[i]

    def vs(self, lo=1, hi=4):
        return self.r.sample(range(self.n), min(self.n, self.r.randint(lo, hi)))

    def strs(self, ix):
        return "[%s]" % ",".join('"%s"' % self.m.names[i] for i in ix)

    def op(self, d=None):
        r, m = self.r, self.m
        d = r.choice([0, 1, 1, 2]) if d is None else d
        if d == 0:
            return self.pick()
        k = r.randrange(16)
        P = lambda: self.op(d - 1)
        F = m.full
        if k < 6:
            a, b = P(), P()
            o, f = r.choice([("AND", lambda x, y: x & y), ("OR", lambda x, y: x | y), ("XOR", lambda x, y: x ^ y), ("XNOR", lambda x, y: ~(x ^ y) & F),
                             ("=", lambda x, y: ~(x ^ y) & F)])
            return "(%s %s %s)" % (a[0], o, b[0]), f(a[1], b[1])
        if k == 6:
            a, b, c = P(), P(), P()
            return "(bite %s %s %s)" % (a[0], b[0], c[0]), (a[1] & b[1]) | (~a[1] & c[1] & F)
        if k < 9:
            a, ix, fa = P(), self.vs(), r.random() < .5
            v = a[1]
            for i in ix:
                v = m.quant(v, i, fa)
            return "(%s %s %s)" % ("Quant_forall" if fa else "Quant_thereis", self.strs(ix), a[0]), v
        if k < 11:
            a, b, ix, fa = P(), P(), self.vs(), r.random() < .4
            v = a[1] & b[1]
            for i in ix:
                v = m.quant(v, i, fa)
            return "(%s (%s) %s %s)" % ("relprod_forall" if fa else "relprod_thereis", " AND ".join(self.V(i) for i in ix), a[0], b[0]), v
        if k < 14:
            a, ix = P(), self.vs(1, 3)
            sub = {i: self.op(d - 1) if r.random() < .8 else (("T", F) if r.random() < .5 else ("F", 0)) for i in ix}
            return "(substitute [%s] %s)" % (",".join('("%s",%s)' % (m.names[i], sub[i][0]) for i in ix), a[0]), m.subst(a[1], {i: s[1] for i, s in sub.items()})
        if k == 14:
            xs = [P() for _ in range(r.randint(2, 4))]
            land = r.random() < .5
            v = F if land else 0
            for x in xs:
                v = v & x[1] if land else v | x[1]
            return "(%s [%s])" % ("AND_list" if land else "OR_list", ",".join(x[0] for x in xs)), v
        a = P()
        return "(NOT %s)" % a[0], ~a[1] & F

    def indep(self, v):
        """Another text for the same function, built from its table (Shannon tree, shared), or None."""
        m, r = self.m, self.r
        order = list(range(self.n))
        r.shuffle(order)
        names, defs = {}, []

        def go(v, k):
            if v == 0:
                return "F"
            if v == m.full:
                return "T"
            if v in names:
                return names[v]
            while m.cof(v, order[k], 0) == m.cof(v, order[k], 1):
                k += 1
            h, l = go(m.cof(v, order[k], 1), k + 1), go(m.cof(v, order[k], 0), k + 1)
            n = "w%d" % len(names)
            names[v] = n
            form = r.randrange(3)
            x = self.V(order[k])
            if form == 0:
                t = "IF %s THEN %s ELSE %s" % (x, h, l)
            elif form == 1:
                t = "(%s AND %s) OR ((NOT %s) AND %s)" % (x, h, x, l)
            else:
                t = "(%s AND (%s XOR %s)) XOR %s" % (x, h, l, l)
            defs.append("let %s = %s in " % (n, t))
            return n
        e = go(v, 0)
        if len(defs) > 60:
            return None
        return "(" + "".join(defs) + e + ")"

    def check(self):
        r, m = self.r, self.m
        k = r.randrange(14)
        if not self.f:
            k = 99
        e, v = self.pick() if r.random() < .8 else self.op(1)
        if k < 5:
            self.add("show_line (dumpb (%s));" % e, ["bdump", format(v, "x")])
        elif k < 7:
            t = self.indep(v)
            if t:
                self.add("show_line (dumpb ((%s) == %s));" % (e, t), ["text", "1"])
        elif k == 7:
            e2, v2 = self.op(1)
            self.add("show_line (dumpb ((%s) == (%s)));" % (e, e2), ["text", "1" if v == v2 else "0"])
        elif k == 8:
            self.add('show_line (sh_list sh_str (depends (%s)));' % e, ["set", sorted(m.names[i] for i in m.dep(v))])
        elif k == 9:
            extra = [i for i in range(self.n) if i not in m.dep(v) and r.random() < .5]
            ix = m.dep(v) + extra
            r.shuffle(ix)
            c = bin(v).count("1") >> (self.n - len(ix))
            self.add("show_line (int2str (simple_model_count %s (%s)));" % (self.strs(ix), e), ["text", str(c)])
        elif k == 10:
            f = [self.pick() for _ in range(r.randint(1, 3))]
            ix = list(range(self.n))
            r.shuffle(ix)
            self.add("show_line (sh_list sh_int (truth_cover_n %s [%s]));" % (self.strs(ix), ",".join(x[0] for x in f)),
                     ["text", "[" + "".join("%d;" % bin(x[1]).count("1") for x in f) + "]"])
        elif k == 11:
            # a point
            pt = {i: r.random() < .5 for i in range(self.n)}
            row = sum(1 << i for i in pt if pt[i])
            self.add("show_line (dumpb (substitute [%s] (%s)));" % (",".join('("%s",%s)' % (m.names[i], "T" if pt[i] else "F") for i in pt), e), ["text", "1" if v >> row & 1 else "0"])
        elif k == 12:
            self.add("show_line (dumpb (let dchk = %s then val (v,(h,l)) = top_cofactor dchk in (IF (variable v) THEN h ELSE l) == dchk));" % e if v not in (0, m.full) else "show_line (dumpb ((%s) == %s));" % (e, "T" if v else "F"), ["text", "1"])
        else:
            g = self.indep(v)
            if g:
                self.add("let gg%d = %s;" % (self.k, g), ["quiet"])
                self.add("show_line (dumpb (gg%d XOR (%s)));" % (self.k - 1, e), ["text", "0"])

    def drop(self):
        n = self.r.choice(sorted(self.f))
        self.add('let %s = 0;' % n, ["quiet"])
        del self.f[n]

    def step(self):
        r, m = self.r, self.m
        k = r.random()
        if k < .45:
            if len(self.f) > 7:
                self.drop()
            e, v = self.op()
            n = "f%d" % self.k
            self.add("let %s = %s;" % (n, e), ["quiet"])
            self.f[n] = v
        elif k < .52:
            xs = [self.op(1) for _ in range(r.randint(1, 4))]
            n = "l%d" % self.k
            self.add("let %s = [%s];" % (n, ",".join(x[0] for x in xs)), ["quiet"])
            # a lazy list: its elements are made when first used, from values fixed now
            self.lists[n] = [x[1] for x in xs]
        elif k < .57:
            self.add("show_line (dumpb ((bfroml (map (\\x. \"zc\"^(int2str x)) (1 upto %d))) == F));" % r.randint(3, 40), ["text", "0"])
        elif k < .62:
            self.add("bdd_reorder %d;" % r.choice([1, 1, 2]), ["re", r"\(\d+, ?\d+\).*"])
        elif k < .67:
            ix = list(range(self.n))
            r.shuffle(ix)
            ix = ix[:r.randint(1, self.n)]
            self.add("let vo%d = var_order %s;" % (self.k, self.strs(ix)), ["quiet"])
        elif k < .70:
            self.add("let dead%d = %s;" % (r.randint(1, 3), self.op(2)[0]), ["quiet"])
        elif k < .73 and self.f:
            self.drop()
        elif k < .76:
            self.add('update_vossrc "DYNAMIC-ORDERING" "%s";' % r.choice(["YES", "YES", "NO"]))
        else:
            self.check()

    def final(self):
        """With events off: order, sizes, all functions."""
        self.keep("#disarm", "dis")
        names = sorted(self.f)
        for n in names:
            self.add("show_line (dumpb %s);" % n, ["bdump", format(self.f[n], "x")])
            t = self.indep(self.f[n])
            if t:
                self.add("show_line (dumpb (%s == %s));" % (n, t), ["text", "1"])
        for l in sorted(self.lists):
            for i, v in enumerate(self.lists[l]):
                self.add("show_line (dumpb (el %d %s));" % (i + 1, l), ["bdump", format(v, "x")])
        it = self.add('var_order [];', None, keep=True)
        self.add("show_line (sh_list sh_int (map bdd_size [%s]));" % ",".join(names), ["bsize", it["id"], [format(self.f[n], "x") for n in names]])
        self.keep("quit;", "quit")


def bdd_session(r, steps=None):
    pref = []
    if r.random() < .4:
        pref.append('update_vossrc "MIN-RECOVERY-IN-DYNAMIC-ORDERING" "%d";' % r.choice([0, 1, 5]))
    if r.random() < .3:
        pref.append('update_vossrc "OPTIMAL-DYNAMIC-ORDERING" "%s";' % r.choice(["YES", "NO"]))
    if r.random() < .3:
        pref.append('update_vossrc "ELASTICITY-IN-DYNAMIC-ORDERING" "%d";' % r.choice([1, 2, 5]))
    if r.random() < .3:
        pref.append('update_vossrc "DYNAMIC-ORDERING-REPETITIONS" "%d";' % r.choice([1, 2, 3]))
    s = BSess(r, pref=pref)
    for _ in range(steps or r.randint(8, 30)):
        s.step()
    s.final()
    return s


@oracle
def bdd_items(case, results):
    bm = BM(case["names"])
    real = fw.check_exp
    ph, res = case["phases"][-1], results[-1]
    sec = res.sections("out")

    def chk(exp, out, err):
        o = strip_prompt(out).rstrip("\n")
        if exp[0] == "bdump":
            try:
                m = bm.parse(o)
            except (ValueError, IndexError) as e:
                return "%s in %r; messages %r" % (e, o[:200], err[:200])
            return None if m == int(exp[1], 16) else "function %x instead of %s; dump %r" % (m, exp[1], o[:300])
        if exp[0] == "set":
            got = [x for x in o[1:-1].split(";") if x]
            return None if sorted(got) == exp[1] else "depends gives %r instead of %r" % (o[:200], exp[1])
        if exp[0] == "bsize":
            ln = ph["line_of"].get(exp[1])
            import re
            order = md_names(re.findall(r'"([^"]+)"', strip_prompt(sec.get(ln, ""))))
            order = [n for n in order if n in bm.names]
            if sorted(order) != sorted(set(order)):
                return "variable listed twice in the order: %r" % order
            need = set(i for x in exp[2] for i in bm.dep(int(x, 16)))
            if not need <= set(bm.names.index(n) for n in order):
                return "variables missing from the order %r" % order
            want = "[" + "".join("%d;" % bm.size([int(x, 16)], [bm.names.index(n) for n in order]) for x in exp[2]) + "]"
            return None if o == want else "bdd_size %s, canonical size under order %r is %s; %s" % (o[:100], order, want, err[:100])
        return real(exp, out, err)
    fw.check_exp = chk
    try:
        return ORACLES["expect_items"](case, results)
    finally:
        fw.check_exp = real


def md_names(l):
    """Expand compressed vector names a[3:0,5]."""
    import re
    out = []
    for n in l:
        m = re.fullmatch(r"(.*)\[([-0-9:,]+)\]", n)
        if not m:
            out.append(n)
            continue
        for part in m.group(2).split(","):
            if ":" in part:
                a, b = map(int, part.split(":"))
                out += ["%s[%d]" % (m.group(1), i) for i in (range(a, b + 1) if a <= b else range(a, b - 1, -1))]
            else:
                out.append("%s[%s]" % (m.group(1), part))
    return out
