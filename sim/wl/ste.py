"""Symbolic trajectory evaluation: small random circuits, antecedents, weakenings and consequents
over symbolic values, compared with a phase-by-phase dual-rail simulation over truth tables."""
import random
import re
import framework as fw
from framework import oracle, strip_prompt
import bdd
from bdd import BM, NAMES
import flgen

PRE = ['update_vossrc "VERBOSE-DYNAMIC-ORDERING" "NO";', flgen.PRELUDE[0], "let sh_int {i::int} = int2str i;", "let sh_str {s::string} = s;", flgen.PRELUDE[3], flgen.PRELUDE[5], flgen.PRELUDE[6],
       "let nosub = {[]::((string#bool) list)};",
       'let dv r (n,t) = val (h,l) = get_trace_val r n t in (dumpb h) ^ "," ^ (dumpb l);',
       'let dbv r (n,t) = val (h,l) = bget_trace_val r n t in (dumpb (base_bexpr2bdd nosub h)) ^ "," ^ (dumpb (base_bexpr2bdd nosub l));',
       'let dres r s = dumpb (get_ste_result r s);',
       'let dbres r s = dumpb (base_bexpr2bdd nosub (bget_ste_result r s));']


# ---------------------------------------------------------------- values
class Alg:
    """Dual-rail operations on words, most significant bit first; a bit is (H, L)."""

    def __init__(self, m, acc, rng=None):
        self.F, self.acc, self.m, self.rng = m.full, acc, m, rng
        self.X, self.I, self.O = (m.full, m.full), (m.full, 0), (0, m.full)

    def AND(s, a, b): return (a[0] & b[0], a[1] | b[1])
    def OR(s, a, b): return (a[0] | b[0], a[1] & b[1])
    def NOT(s, a): return (a[1], a[0])

    def ite(s, c, a, b, acc=True):
        if acc:
            return ((a[0] & b[0]) | (c[0] & a[0]) | (c[1] & b[0]), (a[1] | b[1]) & (c[1] | a[1]) & (c[0] | b[1]))
        return ((c[0] & a[0]) | (c[1] & b[0]), (c[1] | a[1]) & (c[0] | b[1]))

    def xor(s, a, b):
        return ((a[0] & b[1]) | (a[1] & b[0]), (a[1] | b[0]) & (a[0] | b[1]))

    def add(s, a, b, c):
        out = []
        for x, y in zip(reversed(a), reversed(b)):
            # exactly as specific as the gate network of the program: two-level exclusive or
            t = s.xor(x, y)
            h = (t[0] & c[1]) | ((x[1] | y[0]) & (x[0] | y[1]) & c[0])
            l = (((x[1] | y[0]) & (x[0] | y[1])) | c[0]) & (t[0] | c[1])
            out.append((h, l))
            c = ((x[0] & y[0]) | (x[0] & c[0]) | (y[0] & c[0]), (x[1] | y[1]) & (x[1] | c[1]) & (y[1] | c[1]))
        return out[::-1]

    def gr(s, a, b, g):
        for x, y in zip(reversed(a), reversed(b)):
            g = ((x[0] & y[1]) | ((x[0] | y[1]) & g[0]), (x[1] | y[0]) & ((x[1] & y[0]) | g[1]))
        return g

    def sub(s, a, b):
        return s.add(a, [s.NOT(x) for x in b], s.I)

    def divmod(s, a, b):
        n = len(a)
        q, r = [s.O] * n, [s.O] * n
        for i in range(n):
            r2 = r[1:] + [a[i]]
            d = s.sub(r2, b)
            c = s.gr(r2, b, s.I)
            r = [s.ite(c, x, y) for x, y in zip(d, r2)]
            q = q[1:] + [c]
        return q, r

    def shift(s, a, b, f):
        cur, k = list(a), 1
        for c in reversed(b):
            cur = [s.ite(c, x, y) for x, y in zip(f(cur, k), cur)]
            k *= 2
        return cur

    def fix(s, v):
        """A concrete choice for every unknown bit."""
        out = []
        for h, l in v:
            amb = h & l
            if amb:
                x = s.rng.getrandbits(s.m.rows)
                h, l = h & ~(amb & x), l & ~(amb & ~x)
            out.append((h, l))
        return out

    def ev(s, e, env):
        v = s.ev0(e, env)
        return s.fix(v) if s.rng else v

    def ev0(s, e, env):
        k = e[0]
        R = lambda i: s.ev(e[i], env)
        if k == "x": return [s.X] * e[1]
        if k == "const": return [s.I if e[2] >> i & 1 else s.O for i in range(e[1] - 1, -1, -1)]
        if k == "var": return env[e[1]]
        if k in ("and", "or"):
            return [(s.AND if k == "and" else s.OR)(x, y) for x, y in zip(R(1), R(2))]
        if k == "not": return [s.NOT(x) for x in R(1)]
        if k == "eq":
            h, l = s.F, 0
            for x, y in zip(R(1), R(2)):
                h &= (x[0] & y[0]) | (x[1] & y[1])
                l |= (x[1] | y[1]) & (x[0] | y[0])
            return [(h, l)]
        if k == "gr": return [s.gr(R(1), R(2), s.O)]
        if k == "add": return s.add(R(1), R(2), s.O)
        if k == "sub": return s.sub(R(1), R(2))
        if k == "mul":
            a, b = R(1), R(2)
            out = [s.O] * len(a)
            n = len(a)
            for i in range(n):                # i counts from the least significant bit of b
                bi = b[n - 1 - i]
                t = [s.AND(bi, a[j + i]) if j + i < n else s.O for j in range(n)]
                out = s.add(t, out, s.O)
            return out
        if k == "div": return s.divmod(R(1), R(2))[0]
        if k == "mod": return s.divmod(R(1), R(2))[1]
        if k == "shl": return s.shift(R(1), R(2), lambda v, n: (v + [s.O] * n)[n:][:len(v)] if n < len(v) else [s.O] * len(v))
        if k == "shr": return s.shift(R(1), R(2), lambda v, n: ([s.O] * n + v)[:len(v)])
        if k == "ashr": return s.shift(R(1), R(2), lambda v, n: ([v[0]] * n + v)[:len(v)])
        if k == "ite":
            c = R(1)[0]
            return [s.ite(c, x, y, s.acc) for x, y in zip(R(2), R(3))]
        if k == "sx":
            v = R(2)
            return [v[0]] * (e[1] - len(v)) + v if e[1] >= len(v) else v[-e[1]:]
        if k == "zx":
            v = R(2)
            return [s.O] * (e[1] - len(v)) + v if e[1] >= len(v) else v[-e[1]:]
        if k == "slice":
            v = R(2)
            return [v[len(v) - 1 - i] for i in e[1]]
        if k == "cat": return [b for x in e[1] for b in s.ev(x, env)]
        if k == "leq":
            out = []
            for x, y in zip(R(1), R(2)):
                h = (y[0] | ~x[0] & s.F) & (y[1] | ~x[1] & s.F)
                out.append((h, ~h & s.F))
            return out
        if k in ("rd", "wr"):
            asz, lines, dsz = e[1]
            mem, addr = R(2), R(3)
            word = lambda i: mem[(lines - 1 - i) * dsz:(lines - i) * dsz]

            def sel(line):
                h, l = s.F, 0
                for b in range(asz):
                    x = addr[asz - 1 - b]
                    if not line >> b & 1:
                        x = s.NOT(x)
                    h, l = h & x[0], l | x[1]
                return h, l
            if k == "rd":
                out = [s.X] * dsz
                for i in range(lines):
                    c = sel(i)
                    out = [s.ite(c, x, y) for x, y in zip(word(i), out)]
                return out
            data, out = R(4), []
            for i in range(lines - 1, -1, -1):
                c = sel(i)
                out += [s.ite(c, x, y) for x, y in zip(data, word(i))]
            return out
        if k == "idelay":
            (mr, Mr), (mf, Mf) = e[1], e[2]
            cur, ins = R(3), [s.ev(x, env) for x in e[4]]
            out = []
            for i, c in enumerate(cur):
                def rail(j, up, down):
                    t1, t0 = s.F, 0
                    for d in ins[:up]: t1 &= d[i][j]
                    for d in ins[:down]: t0 |= d[i][j]
                    return t1 | (c[j] & t0)
                out.append((rail(0, mr, Mf), rail(1, mf, Mr)))
            return out
        raise ValueError(k)


def vecname(n, sz):
    return n if sz == 1 else "%s[%d:0]" % (n, sz - 1)


def bits(n, sz):
    return [n] if sz == 1 else ["%s[%d]" % (n, i) for i in range(sz - 1, -1, -1)]


def fl(e):
    k = e[0]
    if k == "x": return "(W_X %d)" % e[1]
    if k == "const": return "(W_CONST %d %d)" % (e[1], e[2])
    if k == "var": return '(W_VAR %d "%s")' % (e[2], e[1])
    if k in ("sx", "zx"): return "(W_%s %d %s)" % (k.upper(), e[1], fl(e[2]))
    if k == "slice": return "(W_SLICE [%s] %s)" % (",".join(map(str, e[1])), fl(e[2]))
    if k == "cat": return "(W_CAT [%s])" % ",".join(map(fl, e[1]))
    if k == "rd": return "(W_MEM_READ (MEM %d %d %d) %s %s)" % (tuple(e[1]) + (fl(e[2]), fl(e[3])))
    if k == "wr": return "(W_MEM_WRITE (MEM %d %d %d) %s %s %s)" % (tuple(e[1]) + (fl(e[2]), fl(e[3]), fl(e[4])))
    if k == "idelay": return "(W_IDELAY %d (%d,%d) (%d,%d) %s [%s])" % (e[5], e[1][0], e[1][1], e[2][0], e[2][1], fl(e[3]), ",".join(map(fl, e[4])))
    return "(W_%s %s)" % ({"leq": "LAT_LEQ"}.get(k, k.upper()), " ".join(map(fl, e[1:])))


# ---------------------------------------------------------------- generator
class Ckt:
    def __init__(self, r, leq=False):
        self.r, self.leq = r, leq
        self.size, self.kind, self.fns = {}, {}, []
        nm = iter(r.sample(["a", "b", "c0", "dat", "en", "q", "st", "n1", "w", "xx", "sel", "u_v", "o", "zz", "k9", "m"], 16))
        for _ in range(r.randint(1, 4)):
            self.new(next(nm), r.choice([1, 1, 1, 2, 3]), "in")
        sts = [(next(nm), r.choice([1, 1, 2, 2, 3])) for _ in range(r.randint(0, 4))]
        for n, s in sts:
            self.new(n, s, "st")
        avail = [n for n in self.size]
        mem = None
        if sts and r.random() < .15:
            asz, lines, dsz = r.choice([(1, 2, 1), (1, 2, 2), (2, 3, 1), (2, 4, 1)])
            mem = next(nm)
            self.new(mem, lines * dsz, "st")
            self.mem = (mem, asz, lines, dsz)
        else:
            self.mem = None
        for _ in range(r.randint(1, 6)):
            n, s = next(nm), r.choice([1, 1, 2, 3])
            e = self.expr(s, r.choice([1, 1, 2, 2, 3]), avail)
            self.new(n, s, "cb")
            self.fns.append(["u", n, s, e])
            avail.append(n)
        for n, s in sts:
            self.fns.append(["d", n, s, self.expr(s, r.choice([0, 1, 1, 2]), avail)])
        if mem:
            _, asz, lines, dsz = self.mem
            i3 = [asz, lines, dsz]
            self.fns.append(["d", mem, lines * dsz, ["ite", self.expr(1, 0, avail), ["wr", i3, ["var", mem, lines * dsz], self.expr(asz, 1, avail), self.expr(dsz, 1, avail)], ["var", mem, lines * dsz]]])
        self.outs = [n for n in self.size if self.kind[n] != "in" and r.random() < .5] or [[n for n in self.size if self.kind[n] != "in"][-1]]

    def new(self, n, s, k):
        self.size[n], self.kind[n] = s, k

    def expr(self, s, d, av):
        r = self.r
        P = lambda w=s: self.expr(w, d - 1, av)
        if d <= 0 or r.random() < .1:
            c = [n for n in av if self.size[n] == s]
            if c and r.random() < .9:
                return ["var", r.choice(c), s]
            c = [n for n in av if self.size[n] > s]
            if c and r.random() < .7:
                n = r.choice(c)
                return ["slice", [r.randrange(self.size[n]) for _ in range(s)], ["var", n, self.size[n]]]
            if r.random() < .85:
                return ["const", s, r.randrange(1 << s)]
            n = r.choice(av)
            return [r.choice(["sx", "zx"]), s, ["var", n, self.size[n]]] if self.size[n] <= s else ["x", s]
        k = r.randrange(26)
        if k < 4: return ["and", P(), P()]
        if k < 7: return ["or", P(), P()]
        if k < 9: return ["not", P()]
        if k < 13: return ["ite", P(1), P(), P()]
        if k < 15 and s == 1:
            w = r.choice([1, 2, 3])
            return [r.choice(["eq", "gr"]), P(w), P(w)]
        if k < 19: return [r.choice(["add", "sub", "mul", "add"]), P(), P()]
        if k == 19: return [r.choice(["div", "mod"]), P(), P()]
        if k == 20: return [r.choice(["shl", "shr", "ashr"]), P(), P()]
        if k == 21 and s > 1:
            return [r.choice(["sx", "zx"]), s, P(r.randint(1, s))]
        if k == 22 and s > 1:
            a = r.randint(1, s - 1)
            return ["cat", [P(s - a), P(a)]]
        if k == 23 and self.mem and s == self.mem[3]:
            n, asz, lines, dsz = self.mem
            return ["rd", [asz, lines, dsz], ["var", n, lines * dsz], P(asz)]
        if k == 24 and self.leq:
            return ["leq", P(), P()]
        if k == 25:
            mr, mf = r.randint(1, 2), r.randint(1, 2)
            Mr, Mf = r.randint(mr, 2), r.randint(mf, 2)
            return ["idelay", [mr, Mr], [mf, Mf], P(), [P() for _ in range(max(Mr, Mf))], s]
        return [r.choice(["and", "or"]), P(), P()]

    def text(self):
        fs = ["W_%s (W_VAR %d \"%s\") %s" % ("UPDATE_FN" if k == "u" else "PHASE_DELAY", s, n, fl(e)) for k, n, s, e in self.fns]
        self.r.shuffle(fs)
        io = lambda ns: "[%s]" % ",".join('("%s",["%s"])' % ((vecname(n, self.size[n]),) * 2) for n in ns)
        ins = [n for n in self.size if self.kind[n] == "in"]
        ints = [n for n in self.size if self.kind[n] != "in" and n not in self.outs]
        return 'base_PINST "top" [] T %s %s [%s] (P_LEAF [%s])' % (io(ins), io(self.outs), ",".join('"%s"' % vecname(n, self.size[n]) for n in ints), ", ".join(fs))

    def bits(self):
        return [b for n in self.size for b in bits(n, self.size[n])]

    def json(self):
        return {"size": self.size, "kind": self.kind, "fns": self.fns}


# ---------------------------------------------------------------- reference
class Ref:
    """All phases of one run: self.val[t][bit], self.traj[t], self.check[t] (each up to and including t)."""

    def __init__(self, m, ck, run, acc, rng=None):
        """With rng: one concrete run, every unknown replaced by a random Boolean per row; self.valid[t] are the rows that obey the antecedents."""
        F = m.full
        al = Alg(m, acc, rng)
        size, kind = ck["size"], ck["kind"]
        order, todo, have = [], [f for f in ck["fns"] if f[0] == "u"], {n for n in size if kind[n] != "cb"}
        while todo:
            f = next(x for x in todo if deps(x[3]) <= have)
            todo.remove(f)
            order.append(f)
            have.add(f[1])
        sts = [f for f in ck["fns"] if f[0] == "d"]
        nxt = {n: [al.X] * size[n] for n in size if kind[n] == "st"}

        def phase(force0):
            env = {}
            force = force0
            if rng:
                def force(n, v):
                    return al.fix(force0(n, v))
            for n in size:
                if kind[n] == "in":
                    env[n] = force(n, [al.X] * size[n])
                elif kind[n] == "st":
                    env[n] = force(n, nxt[n])
            for _, n, s, e in order:
                env[n] = force(n, al.ev(e, env))
            return env
        self.ok = False
        for i in range(60):
            env = phase(lambda n, v: v)
            new = {f[1]: al.ev(f[3], env) for f in sts}
            if new == nxt and not rng:
                self.ok = True
                break
            nxt = new
        self.init = {b: v for n in size for b, v in zip(bits(n, size[n]), env[n])}
        evs = [e for l in ("wl", "ant", "cons", "tr") for e in run[l] if e[-1] > e[-2]]
        self.tmin = min([e[-2] for e in evs], default=None)
        self.tmax = max([e[-1] for e in evs], default=-1) + 1
        self.val, self.traj, self.check = {}, {}, {}
        tr = ck_ = F
        if self.tmin is None:
            return
        tab = lambda s: int(s, 16)
        for t in range(self.tmin, self.tmax + 1):
            act = lambda l: [e for e in run[l] if e[-2] <= t < e[-1]]
            wk, an, co = {}, {}, {}
            for w, nd, _, _ in act("wl"):
                wk[nd] = wk.get(nd, 0) | tab(w)
            for d, l in ((an, "ant"), (co, "cons")):
                for w, nd, v, _, _ in act(l):
                    w, v = tab(w), tab(v)
                    h, lo = d.get(nd, (F, F))
                    d[nd] = (h & (~w | v) & F, lo & (~w | ~v) & F)
            bad = [F]

            def force(n, v):
                out = []
                for b, (h, l) in zip(bits(n, size[n]), v):
                    if b in wk:
                        h, l = h | wk[b], l | wk[b]
                    if b in an:
                        h2, l2 = h & an[b][0], l & an[b][1]
                        bad[0] &= h2 | l2
                        dead = F & ~(h2 | l2) if rng else 0
                        h, l = h2 | (h & dead), l2 | (l & dead)
                    out.append((h, l))
                return out
            env = phase(force)
            nxt = {f[1]: al.ev(f[3], env) for f in sts}
            self.val[t] = {b: v for n in size for b, v in zip(bits(n, size[n]), env[n])}
            tr &= bad[0]
            for b, (h, l) in co.items():
                ch, cl = self.val[t][b]
                ck_ &= (~ch | h) & (~cl | l) & F
            self.traj[t], self.check[t] = tr, ck_

    def traced(self, run, b, t):
        return run["all"] or any(e[0] == b and e[-2] <= t < e[-1] for e in run["tr"])

    def at(self, m, run, b, t, last):
        """The value the trace shows for time t, when phases up to last were completed."""
        if t > last and last >= (self.tmin if self.tmin is not None else 0):
            t = last
        X = (m.full, m.full)
        if not self.traced(run, b, t):
            return X
        if self.tmin is None or t < self.tmin or last < self.tmin:
            return self.init[b] if run["all"] and t >= 0 else X
        return self.val[t][b]


def deps(e):
    if e[0] == "var":
        return {e[1]}
    out = set()
    for x in e[1:]:
        if isinstance(x, list):
            if x and isinstance(x[0], str):
                out |= deps(x)
            else:
                for y in x:
                    if isinstance(y, list) and y and isinstance(y[0], str):
                        out |= deps(y)
    return out


def concrete(case, m, run, k, cache):
    """Concrete runs of run k (sampled)."""
    if k not in cache:
        rng = random.Random(k * 7919 + len(run["ant"]))
        cache[k] = [Ref(m, case["cks"][run["ck"]], run, case["acc"], rng) for _ in range(6)]
    return cache[k]


class Sess:
    def __init__(self, r, mode):
        self.r, self.mode = r, mode
        self.n = r.choice([1, 2, 3, 4, 4, 5])
        self.m = BM(r.sample(NAMES, self.n))
        self.items, self.k = [], 0
        self.ck, self.runs, self.ev = [], [], []
        self.acc = r.random() < .3
        self.keep("\n".join(PRE + (['update_vossrc "ACCURATE-ITE-COMP" "YES";'] if self.acc else [])), "pre")
        self.keep("#arm", "arm")

    keep, add = bdd.BSess.keep, bdd.BSess.add

    def fun(self, b, d=None):
        """A symbolic Boolean as text (BDD, or bexpr if b) and table."""
        r, F = self.r, self.m.full
        d = r.choice([0, 0, 0, 1, 1, 2]) if d is None else d
        if d == 0:
            k = r.random()
            if k < .15: return ("bF" if b else "F"), 0
            if k < .3: return ("bT" if b else "T"), F
            i = r.randrange(self.n)
            return '(%s "%s")' % ("bvariable" if b else "variable", self.m.names[i]), self.m.v[i]
        x, y = self.fun(b, d - 1), self.fun(b, d - 1)
        if r.random() < .25:
            return "(%s %s)" % ("bNOT" if b else "NOT", x[0]), ~x[1] & F
        o, f = r.choice([("AND", lambda x, y: x & y), ("OR", lambda x, y: x | y), ("XOR", lambda x, y: x ^ y)])
        return "(%s %s %s)" % (x[0], ("b" if b else "") + o, y[0]), f(x[1], y[1])

    def ivl(self, hi):
        r = self.r
        a = r.randrange(hi)
        b = r.randint(a, hi) if r.random() < .95 else r.randint(0, a)
        return a, b

    def when(self, b):
        return ("bT" if b else "T", self.m.full) if self.r.random() < .65 else self.fun(b)

    def circuit(self):
        c = Ckt(self.r)
        i = len(self.ck)
        self.add("let p%d = %s;" % (i, c.text()), ["quiet"])
        self.add("let f%d = pexlif2fsm p%d;" % (i, i), ["quiet"])
        self.add("(length (nodes f%d)) >= %d;" % (i, len(c.bits())), None)
        self.ck.append(c)

    def evlists(self, c, b):
        """Weakenings, antecedents, consequents and traces: (texts, tables)."""
        r = self.r
        hi = r.choice([3, 5, 8])
        ins = [x for n in c.size if c.kind[n] == "in" for x in bits(n, c.size[n])]
        alls = c.bits()
        five = lambda w, n, v, f, t: '(%s,"%s",%s,%d,%d)' % (w[0], n, v[0], f, t)
        wl, ant, cons, tr = [], [], [], []
        for n in ins:
            if r.random() < .85:
                t = 0
                while t < hi and len(ant) < 40:
                    e = min(hi, t + r.choice([1, 1, 2, 4, 9]))
                    if r.random() < .85:
                        ant.append((self.when(b), n, self.fun(b), t, e))
                    t = e
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            ant.append((self.when(b) if r.random() < .5 else self.fun(b), r.choice(alls), self.fun(b)) + self.ivl(hi))
        for _ in range(r.choice([0, 0, 0, 1, 3])):
            wl.append((self.when(b) if r.random() < .5 else self.fun(b), r.choice(alls)) + self.ivl(hi))
        for _ in range(r.choice([0, 1, 2, 4])):
            cons.append((self.when(b) if r.random() < .5 else self.fun(b), r.choice(alls), self.fun(b)) + self.ivl(hi + 2))
        for _ in range(r.choice([0, 1, 3, 5])):
            tr.append((r.choice(alls),) + self.ivl(hi + 1))
        for l in (ant, cons, wl, tr):
            r.shuffle(l)
        tx = ["[%s]" % ",".join('(%s,"%s",%d,%d)' % (w[0], n, f, t) for w, n, f, t in wl),
              "[%s]" % ",".join(five(*e) for e in ant), "[%s]" % ",".join(five(*e) for e in cons),
              "[%s]" % ",".join('("%s",%d,%d)' % e for e in tr)]
        h = lambda x: format(x[1], "x")
        return tx, {"wl": [[h(w), n, f, t] for w, n, f, t in wl], "ant": [[h(w), n, h(v), f, t] for w, n, v, f, t in ant],
                    "cons": [[h(w), n, h(v), f, t] for w, n, v, f, t in cons], "tr": [list(e) for e in tr]}

    def run(self):
        r = self.r
        ci = r.randrange(len(self.ck))
        c = self.ck[ci]
        b = r.random() < .25
        tx, d = self.evlists(c, b)
        opts = ["-s"] if r.random() < .7 else []
        d["all"] = r.random() < .8
        if d["all"]: opts.append("-e")
        d["abort"] = not b and r.random() < .12   # over bexprs equality is structural
        if d["abort"]: opts.append("-a")
        d["stop"] = ""
        d["max"] = None
        if r.random() < .15:
            d["max"] = r.randint(0, 9)
            opts.append("-m %d" % d["max"])
        d["weak"] = None
        if not b and r.random() < .12 and not c.leq:
            d["weak"] = r.choice([0, 2, 3, 5, 20])
            opts.append("-w %d" % d["weak"])
        if not b and r.random() < .1:
            d["stop"] = r.choice(c.bits())
        r.shuffle(opts)
        bad = None
        if r.random() < .06:
            bad = r.randrange(5)
            if bad < 4:
                kind = [r'(%s,"nosuch",1,2)' % ("bT" if b else "T"), '(%s,"nosuch",%s,1,2)' % (("bT", "bF") if b else ("T", "F")), '(%s,"nosuch[3]",%s,0,2)' % (("bT", "bF") if b else ("T", "F")), '("a[77]",1,2)'][bad]
                x = tx[bad][1:-1].split("),(") if False else None
                tx[bad] = "(%s @ [%s])" % (tx[bad], kind)
            else:
                d["stop"] = "nosuch"
        k = len(self.runs)
        d.update(ck=ci, b=b)
        self.add('let r%d = %s "%s" f%d %s "%s";' % (k, "bSTE" if b else "STE", " ".join(opts), ci, " ".join(tx), d["stop"]), ["quiet"])
        self.runs.append(d)
        if bad is not None:
            it = self.add("show_line (sh_int (get_ste_maxtime r%d));" % k)
            self.ev.append([it["id"], "fail", k])
            d["dead"] = True
            return
        d["dead"] = False
        if r.random() < .8:
            self.mt(k)
        if r.random() < .3:
            self.look(k)

    def mt(self, k):
        it = self.add("show_line (sh_int (get_ste_maxtime r%d));" % k)
        self.ev.append([it["id"], "mt", k])

    def look(self, k, full=False):
        r, d = self.r, self.runs[k]
        if d["dead"]:
            return
        c = self.ck[d["ck"]]
        pts = [(n, t) for n in c.bits() for t in range(0, 12)]
        if not full or len(pts) > 60:
            pts = r.sample(pts, min(len(pts), 60 if full else 8))
        if not d["all"]:
            tb = {e[0] for e in d["tr"] if e[2] > e[1]}
            pts = [p for p in pts if p[0] in tb]
        if pts:
            it = self.add("show_line (sh_list (%s r%d) [%s]);" % ("dbv" if d["b"] else "dv", k, ",".join('("%s",%d)' % p for p in pts)))
            self.ev.append([it["id"], "vals", k, [list(p) for p in pts]])
        for s in (["trajOK", "checkOK", "strong", "implies", "", "antOK", "consOK"] if full else [r.choice(["trajOK", "checkOK", "strong"])]):
            if not full or s in ("trajOK", "checkOK") or r.random() < .3:
                it = self.add('show_line (%s r%d "%s");' % ("dbres" if d["b"] else "dres", k, s))
                self.ev.append([it["id"], "res", k, s])

    def drop(self):
        live = [k for k, d in enumerate(self.runs) if not d["dead"]]
        if live:
            k = self.r.choice(live)
            self.add("let r%d = 0;" % k, ["quiet"])
            self.runs[k]["dead"] = True

    def final(self):
        self.keep("#disarm", "dis")
        for k, d in enumerate(self.runs):
            if not d["dead"]:
                self.mt(k)
                self.look(k, True)
        # a fresh run at the end, with everything before it behind it
        self.run()
        if not self.runs[-1]["dead"]:
            self.mt(len(self.runs) - 1)
            self.look(len(self.runs) - 1, True)
        self.keep("quit;", "quit")


def ste_case(r, mode=""):
    s = Sess(r, mode)
    s.circuit()
    for _ in range(r.randint(2, 6)):
        k = r.random()
        if k < .12:
            s.circuit()
        elif k < .8:
            s.run()
        elif k < .9 and s.runs:
            s.look(r.randrange(len(s.runs)))
        else:
            s.drop()
    s.final()
    return s


# ---------------------------------------------------------------- oracle
def first(ts, f):
    return next((t for t in ts if f(t)), None)


@oracle
def ste(case, results):
    bad = []
    ph, r = case["phases"][-1], results[-1]
    m = BM(case["names"])
    F = m.full
    if r.how == "timeout":
        return [("hang", "no progress")]
    if r.how != "exit" or r.status != 0:
        return [("end:%s:%d" % (r.how, r.code), "session ended with %s %d (status %d): %r" % (r.how, r.code, r.status, (r.err or "")[-300:]))]
    sec, err, ln = r.sections("out"), r.sections("err"), ph["line_of"]
    have = {it["id"]: it for it in ph["items"]}
    interrupted = "FIRE intr " in r.log
    for it in ph["items"]:
        if it.get("exp") and not interrupted:
            n = ln[it["id"]]
            x = fw.check_exp(it["exp"], sec[n], err.get(n, "")) if n in sec else "never ran"
            if x:
                bad.append(("item:" + it["id"], "%s: %s" % (it["t"][:300], x)))
    refs, mts, sim, conc = {}, {}, {}, {}
    txt, parts = {}, []
    for e in case["events"]:
        it = have.get(e[0])
        if it is None or it.get("lost"):
            continue
        n = ln[e[0]]
        if n not in sec:
            bad.append(("item:" + e[0], "never ran: %s" % it["t"][:200]))
            continue
        o, er = strip_prompt(sec[n]).rstrip("\n").split("\n")[-1], err.get(n, "")
        say = lambda s: bad.append(("item:" + e[0], "%s: %s; output %r messages %r" % (it["t"][:300], s, o[:300], er[:300])))
        k = e[2]
        run = case["runs"][k]
        if not re.match(r"[\[(\d-]", o):
            o = ""
        cut = "Stack trace" in er or "nterrupt" in er + o or fw_lost(o)
        armed = interrupted and it["id"] in case.get("armed_ids", [])
        if e[1] == "fail":
            if not (interrupted and cut) and not ("Stack trace" in er and ("nosuch" in er + o or "a[77]" in er + o)):
                say("a run naming an unknown node did not fail")
            continue
        if not o and interrupted and (cut or armed):
            continue
        if k not in refs:
            refs[k] = Ref(m, case["cks"][run["ck"]], run, case["acc"])
        R = refs[k]
        if not R.ok:
            continue
        # how far the run went
        if e[1] == "mt":
            if not re.fullmatch(r"-?\d+", o):
                if not interrupted:
                    say("no time")
                continue
            t = int(o)
            if k in mts and mts[k] != t:
                say("the time changed from %d to %d" % (mts[k], t))
            mts[k] = t
            want, done = full_time(m, R, run)
            if t != want:
                if R.tmin is not None and (run["abort"] or run["stop"]) and R.tmin <= t <= R.tmax:
                    sim[k] = t - 1     # values may be known better, or worse when weakened, than gate by gate
                elif interrupted and R.tmin is not None and (t == 0 or R.tmin <= t <= want):
                    sim[k] = t - 1
                else:
                    say("ran to %d, expected %d" % (t, want))
            else:
                sim[k] = done
            continue
        if k not in sim or sim[k] is None:
            continue
        last = sim[k]
        if e[1] == "vals":
            xs = re.fullmatch(r"\[(.*)\]", o)
            ps = xs.group(1).split(";")[:-1] if xs else []
            if len(ps) != len(e[3]):
                late = any(min(x[1] for x in run["tr"] if x[0] == nd and x[2] > x[1]) > last for nd, _ in e[3]) if not run["all"] else False
                if not interrupted and not (late and "not traced" in er):
                    say("%d values, expected %d" % (len(ps), len(e[3])))
                continue
            part = interrupted or run["max"] is not None or run["abort"] or run["stop"]
            for (nd, t), p in zip(e[3], ps):
                try:
                    g = tuple(m.parse(x) for x in p.split(","))
                except (ValueError, IndexError) as ex:
                    say("%s at %d: bad value %s: %s" % (nd, t, p[:100], ex))
                    break
                if part and t > last:
                    continue
                w = R.at(m, run, nd, t, last)
                if g == w:
                    continue
                # assignments that the antecedent excludes have no meaningful values
                here = R.tmin is not None and t >= R.tmin and last >= R.tmin
                tok = R.traj[min(t, last)] if here else F
                if run["weak"] is None and (g[0] & ~w[0] | g[1] & ~w[1]) & tok:
                    say("%s at %d is %x,%x, weaker than %x,%x" % (nd, t, g[0], g[1], w[0], w[1]))
                    break
                # simplified circuits may know more, but only what is so
                for C in concrete(case, m, run, k, conc):
                    v = C.at(m, run, nd, t, last)
                    ok = C.traj[max(C.tmin, min(t, last))] if C.tmin is not None and t >= C.tmin and last >= C.tmin else F
                    if (v[0] & ~g[0] | v[1] & ~g[1]) & ok:
                        say("%s at %d is %x,%x, excluding %x (reference %x,%x)" % (nd, t, g[0], g[1], (v[0] & ~g[0] | v[1] & ~g[1]) & ok, w[0], w[1]))
                        break
                else:
                    continue
                break
            continue
        try:
            g = m.parse(o)
        except (ValueError, IndexError) as ex:
            if not interrupted:
                say("bad result: %s" % ex)
            continue
        full, done = full_time(m, R, run)
        tl = max((t for t in R.val if t <= last), default=None)
        tr0, ck0 = (F, F) if tl is None else (R.traj[tl], R.check[tl])
        nx = last + 1 if last + 1 in R.val else None
        if tl is None and nx is None and R.val and mts.get(k, 0) == 0:
            nx = None
        hi = [tr0, ck0]
        partial = mts.get(k) != full or done != R.tmax
        lo = [R.traj[nx], R.check[nx]] if partial and nx is not None else hi
        s = e[3]
        comb = {"trajOK": lambda a, b: a, "checkOK": lambda a, b: b, "antOK": lambda a, b: F, "consOK": lambda a, b: F,
                "strong": lambda a, b: a & b, "": lambda a, b: a & b, "implies": lambda a, b: ~a & F | b}[s]
        if s == "implies":
            L, H = (~hi[0] & F) | lo[1], (~lo[0] & F) | hi[1]
        else:
            L, H = comb(*lo), comb(*hi)
        if run["weak"] is None and L == H == g:
            continue
        if s == "trajOK":
            if run["weak"] is None and g & ~H & F:
                say("%s is %x, beyond %x" % (s, g, H))
                continue
            for C in concrete(case, m, run, k, conc):
                v = C.traj[nx if partial and nx is not None else tl] if tl is not None or nx is not None else F
                if v & ~g & F:
                    say("%s is %x, but %x obey the antecedent (reference %x)" % (s, g, v, H))
                    break
        elif s == "checkOK":
            if run["weak"] is None and L & ~g & lo[0]:
                say("%s is %x, less than %x" % (s, g, L))
                continue
            for C in concrete(case, m, run, k, conc):
                if tl is not None and C.traj[tl] & ~C.check[tl] & g & F:
                    say("%s is %x, but fails for %x (reference %x)" % (s, g, C.traj[tl] & ~C.check[tl] & F, H))
                    break
        else:
            parts.append((e, s, g, say))
        if s in ("trajOK", "checkOK"):
            txt[k, s] = g
        if run["abort"] and not interrupted and run["max"] is None and not run["stop"] and s in ("strong", "") and mts.get(k, 0) < R.tmax and g == F and R.tmin is not None:
            say("aborted by a failure, but the result shows none")
    for e, s, g, say in parts:
        k = e[2]
        if (k, "trajOK") in txt and (k, "checkOK") in txt:
            a, b = txt[k, "trajOK"], txt[k, "checkOK"]
            w = {"antOK": F, "consOK": F, "strong": a & b, "": a & b, "implies": ~a & F | b}[s]
            if g != w:
                say("%s is %x, but trajOK is %x and checkOK %x" % (s, g, a, b))
    return bad


def fw_lost(o):
    return o.endswith(">>") or not o


def full_time(m, R, run):
    """Where an undisturbed run ends, and the last phase it completes."""
    F = m.full
    if R.tmin is None:
        return 0, -1
    for t in range(R.tmin, R.tmax + 1):
        if run["max"] is not None and t > run["max"]:
            return t, t - 1
        if run["stop"]:
            prev = R.val[t - 1] if t > R.tmin else R.init
            if prev[run["stop"]] == (F, 0):
                return t, t - 1
        if run["abort"]:
            p, c = (R.traj[t - 1], R.check[t - 1]) if t > R.tmin else (F, F)
            if R.traj[t] != p or R.traj[t] != F or R.check[t] != c or R.check[t] != F and (not run["b"]):
                # a consequent failure only ends runs over BDDs
                if R.traj[t] != F or not run["b"]:
                    return t, t - 1
    return R.tmax, R.tmax
