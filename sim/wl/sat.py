"""bexprs: functions as and-inverter graphs, and the SAT solver behind them, whose time may run out."""
import re
import framework as fw
from framework import oracle, strip_prompt
import bdd
from bdd import BM, NAMES
import flgen
from procs import log_sections

DUMPX = ('letrec dumpx e = val t = bget_type e in t = "const_1" => "1" | t = "const_0" => "0" | t = "variable" => (bget_variable e) | '
         't = "not-variable" => "!" ^ (bget_variable e) | val (l,r) = bget_arguments e in (t = "and" => "(" | "!(") ^ (dumpx l) ^ "&" ^ (dumpx r) ^ ")";')
PRE = ['update_vossrc "VERBOSE-DYNAMIC-ORDERING" "NO";', flgen.PRELUDE[0], "let sh_int {i::int} = int2str i;", "let sh_str {s::string} = s;", flgen.PRELUDE[3], flgen.PRELUDE[5], flgen.PRELUDE[6],
       DUMPX,
       'let dumps e = (bsize [e]) < 14 => dumpx e | "big";',
       'let dumpm m = sh_list (\\p. (fst p) ^ "=" ^ ((snd p) == bT => "1" | (snd p) == bF => "0" | "?")) m;',
       'let nosub = {[]::((string#bool) list)};',
       'letrec itb f z [] = z /\\ itb f z (x:xs) = f x (itb f z xs);']


class XSess:
    def __init__(self, r, n=None):
        self.r = r
        self.n = n or r.choice([3, 4, 5, 6, 8, 10])
        self.m = BM((NAMES + ["w1"])[:0] + r.sample(NAMES + ["w1"], self.n))
        self.items, self.k = [], 0
        self.f, self.lists = {}, {}
        self.ev = []
        pref = []
        if r.random() < .5:
            pref.append('update_vossrc "BEXPR-SAT-TIME-LIMIT" "%d";' % r.choice([0, 1, 1, 30]))
        if r.random() < .3:
            pref.append('update_vossrc "BEXPR-ORDER-AND-ARGS" "YES";')
        if r.random() < .3:
            pref.append('update_vossrc "BEXPR-ADD-REDUNDANT-TERMS" "YES";')
        self.keep("\n".join(PRE + pref), "pre")
        self.keep("#arm", "arm")

    keep, add = bdd.BSess.keep, bdd.BSess.add

    def V(self, i):
        return '(bvariable "%s")' % self.m.names[i]

    def pick(self):
        r = self.r
        k = r.random()
        if self.f and k < .65:
            n = r.choice(sorted(self.f))
            return n, self.f[n]
        if self.lists and k < .75:
            n = r.choice(sorted(self.lists))
            i = r.randrange(len(self.lists[n]))
            return "(el %d %s)" % (i + 1, n), self.lists[n][i]
        if k > .97:
            return r.choice([("bT", self.m.full), ("bF", 0)])
        i = r.randrange(self.n)
        if r.random() < .25:
            return "(bNOT %s)" % self.V(i), ~self.m.v[i] & self.m.full
        return self.V(i), self.m.v[i]

    def bvec(self, d, n):
        """A list of bexprs of length n as text, and tables."""
        r = self.r
        if n and r.random() < .35 and d > 0:
            F = self.m.full
            k = r.randrange(4)
            a, b = self.bvec(d - 1, n), self.bvec(d - 1, n)
            if k == 0:
                c = self.op(d - 1)
                return "(bITE %s %s %s)" % (c[0], a[0], b[0]), [(c[1] & x) | (~c[1] & y & F) for x, y in zip(a[1], b[1])]
            if k == 1:
                return "(gen_bAND %s %s)" % (a[0], b[0]), [x & y for x, y in zip(a[1], b[1])]
            if k == 2:
                return "(gen_bOR %s %s)" % (a[0], b[0]), [x | y for x, y in zip(a[1], b[1])]
            return "(gen_bNOT %s)" % a[0], [~x & F for x in a[1]]
        ls = [l for l in sorted(self.lists) if len(self.lists[l]) == n]
        if ls and r.random() < .5:
            l = r.choice(ls)
            return l, list(self.lists[l])
        xs = [self.op(max(0, d - 1)) for _ in range(n)]
        return "[%s]" % ",".join(x[0] for x in xs), [x[1] for x in xs]

    def bd(self, d=1):
        """A BDD expression."""
        r, F = self.r, self.m.full
        if d == 0:
            i = r.randrange(self.n)
            return '(variable "%s")' % self.m.names[i], self.m.v[i]
        a, b = self.bd(d - 1), self.bd(d - 1)
        o, f = r.choice([("AND", lambda x, y: x & y), ("OR", lambda x, y: x | y), ("XOR", lambda x, y: x ^ y)])
        if r.random() < .2:
            return "(NOT %s)" % a[0], ~a[1] & F
        return "(%s %s %s)" % (a[0], o, b[0]), f(a[1], b[1])

    def op(self, d=None):
        r, m = self.r, self.m
        d = r.choice([0, 1, 1, 2, 3]) if d is None else d
        if d == 0:
            return self.pick()
        k = r.randrange(14)
        P = lambda: self.op(d - 1)
        F = m.full
        if k < 6:
            a, b = P(), P()
            o, f = r.choice([("bAND", lambda x, y: x & y), ("bOR", lambda x, y: x | y), ("bXOR", lambda x, y: x ^ y), ("bXNOR", lambda x, y: ~(x ^ y) & F)])
            return "(%s %s %s)" % (a[0], o, b[0]), f(a[1], b[1])
        if k < 8:
            a, b, c = P(), P(), P()
            return "(bITE %s %s %s)" % (a[0], b[0], c[0]), (a[1] & b[1]) | (~a[1] & c[1] & F)
        if k == 8:
            n = r.choice([1, 2, 3])
            v = self.bvec(d, n)
            i = r.randrange(n)
            return "(el %d %s)" % (i + 1, v[0]), v[1][i]
        if k == 9:
            n = r.choice([1, 2, 3])
            a, b = self.bvec(d, n), self.bvec(d, n)
            v = F
            for x, y in zip(a[1], b[1]):
                v &= ~(x ^ y) & F
            return "(bEqual %s %s)" % (a[0], b[0]), v
        if k == 10:
            a = P()
            ix = r.sample(range(self.n), r.randint(1, min(3, self.n)))
            sub = {i: self.op(d - 1) for i in ix}
            return "(bsubstitute [%s] %s)" % (",".join('("%s",%s)' % (m.names[i], sub[i][0]) for i in ix), a[0]), m.subst(a[1], {i: s[1] for i, s in sub.items()})
        if k == 11:
            b = self.bd(r.choice([1, 2]))
            return "(hd (bool2bexpr [%s]))" % b[0], b[1]
        if k == 12:
            a, b, c = P(), P(), P()
            return "(IF %s THEN %s ELSE %s)" % (a[0], b[0], c[0]), (a[1] & b[1]) | (~a[1] & c[1] & F)
        a = P()
        return "(bNOT %s)" % a[0], ~a[1] & F

    def limit(self):
        return self.r.choice([1, 1, 2, 60, 60, 0])

    def subbdd(self, e, v):
        r, m = self.r, self.m
        ix = r.sample(range(self.n), r.randint(1, min(3, self.n)))
        sub = {i: self.bd(r.choice([0, 1, 2])) for i in ix}
        it = self.add("show_line (dumpb (base_bexpr2bdd [%s] %s));" % (",".join('("%s",%s)' % (m.names[i], sub[i][0]) for i in ix), e))
        self.ev.append([it["id"], "bdd", format(m.subst(v, {i: s[1] for i, s in sub.items()}), "x")])

    def query(self, e, v, limit=None):
        r, m = self.r, self.m
        lim = self.limit() if limit is None else limit
        k = r.randrange(12)
        if k < 4:
            es = [(e, v)] + [self.op(1) for _ in range(r.choice([0, 0, 0, 1, 2]))]
            r.shuffle(es)
            w = m.full
            for x in es:
                w &= x[1]
            it = self.add("show_line (dumpm (bget_model [%s] %d));" % (",".join(x[0] for x in es), lim))
            self.ev.append([it["id"], "model", format(w, "x"), lim])
        elif k < 6:
            it = self.add("show_line (dumpb (bexpr_is_unsat %s %d));" % (e, lim))
            self.ev.append([it["id"], "unsat", format(v, "x"), lim])
        elif k < 8:
            it = self.add("show_line (dumpb (base_bexpr2bdd nosub %s));" % e)
            self.ev.append([it["id"], "bdd", format(v, "x")])
        elif k == 8:
            for _ in range(r.choice([1, 2])):
                self.subbdd(e, v)
            if r.random() < .6:
                it = self.add("show_line (dumpb (base_bexpr2bdd nosub %s));" % e)
                self.ev.append([it["id"], "bdd", format(v, "x")])
        elif k == 9:
            it = self.add("show_line (dumps %s);" % e)
            self.ev.append([it["id"], "tree", format(v, "x")])
        elif k == 10:
            it = self.add("show_line (sh_list sh_str (bdepends [%s]));" % e)
            self.ev.append([it["id"], "deps", format(v, "x")])
        else:
            e2, v2 = self.op(1)
            it = self.add("show_line (dumpb (%s == %s));" % (e, e2))
            self.ev.append([it["id"], "same", format(v, "x"), format(v2, "x")])

    def hard(self):
        """A problem that takes the solver some work: random clauses, or pigeons and holes."""
        r, F = self.r, self.m.full
        if r.random() < .3 and self.n >= 6:
            ps, hs = (3, 2) if self.n < 8 else r.choice([(3, 2), (4, 2)])
            x = [[(self.V(p * hs + h), self.m.v[p * hs + h]) for h in range(hs)] for p in range(ps)]
            cl = [[(a, b, 1) for a, b in row] for row in x]
            for h in range(hs):
                for p in range(ps):
                    for q in range(p):
                        cl.append([x[p][h] + (0,), x[q][h] + (0,)])
        else:
            cl = []
            for _ in range(int(self.n * r.uniform(2, 6))):
                cl.append([(self.V(i), self.m.v[i], r.randrange(2)) for i in r.sample(range(self.n), min(3, self.n))])
        r.shuffle(cl)
        v, ts = F, []
        for c in cl:
            w = 0
            t = []
            for a, b, s in c:
                w |= b if s else ~b & F
                t.append(a if s else "(bNOT %s)" % a)
            v &= w
            ts.append("(%s)" % " bOR ".join(t))
        if r.random() < .5:
            return "(%s)" % " bAND ".join(ts), v
        return "(itb (\\x.\\y. x bAND y) bT [%s])" % ",".join(ts), v

    def step(self):
        r = self.r
        k = r.random()
        if k < .34:
            if len(self.f) > 6:
                self.drop()
            e, v = self.op() if r.random() < .8 else self.hard()
            n = "x%d" % self.k
            self.add("let %s = %s;" % (n, e), ["quiet"])
            self.f[n] = v
        elif k < .42:
            xs = self.bvec(2, r.randint(1, 3))
            n = "xl%d" % self.k
            self.add("let %s = %s;" % (n, xs[0]), ["quiet"])
            self.lists[n] = xs[1]
        elif k < .46 and self.f:
            self.drop()
        elif k < .5:
            self.add('update_vossrc "BEXPR-SAT-TIME-LIMIT" "%d";' % r.choice([0, 1, 5]))
        elif k < .6:
            self.query(*self.hard())
        else:
            self.query(*(self.pick() if r.random() < .7 else self.op(2)))

    def drop(self):
        n = self.r.choice(sorted(self.f))
        self.add("let %s = 0;" % n, ["quiet"])
        del self.f[n]

    def final(self):
        self.keep("#disarm", "dis")
        for n in sorted(self.f):
            for _ in range(2):
                self.query(n, self.f[n], 60)
            it = self.add("show_line (dumpm (bget_model [%s] 60));" % n)
            self.ev.append([it["id"], "model", format(self.f[n], "x"), 60])
        for l in sorted(self.lists):
            for i, v in enumerate(self.lists[l]):
                self.query("(el %d %s)" % (i + 1, l), v, 60)
        self.query(*self.hard(), limit=60)
        self.keep("quit;", "quit")


def sat_case(r):
    s = XSess(r)
    for _ in range(r.randint(6, 24)):
        s.step()
    s.final()
    return s


def parse_tree(m, s):
    pos = 0
    ix = {n: i for i, n in enumerate(m.names)}

    def go():
        nonlocal pos
        neg = s[pos] == "!"
        if neg:
            pos += 1
        if s[pos] == "(":
            pos += 1
            a = go()
            if s[pos] != "&":
                raise ValueError("no & at %d" % pos)
            pos += 1
            b = go()
            if s[pos] != ")":
                raise ValueError("no ) at %d" % pos)
            pos += 1
            v = a & b
        else:
            j = pos
            while pos < len(s) and s[pos] not in "&)":
                pos += 1
            n = s[j:pos]
            v = m.full if n == "1" else 0 if n == "0" else m.v[ix[n]]
        return ~v & m.full if neg else v
    v = go()
    if pos != len(s):
        raise ValueError("trailing text")
    return v


@oracle
def sat(case, results):
    bad = []
    ph, r = case["phases"][-1], results[-1]
    m = BM(case["names"])
    ix = {n: i for i, n in enumerate(m.names)}
    if r.how == "timeout":
        return [("hang", "no progress")]
    if r.how != "exit" or (r.status != 0 and not ph.get("any_status")):
        return [("end:%s:%d" % (r.how, r.code), "session ended with %s %d (status %d): %r" % (r.how, r.code, r.status, (r.err or "")[-300:]))]
    sec, err, ln, logs = r.sections("out"), r.sections("err"), ph["line_of"], log_sections(r)
    have = {it["id"]: it for it in ph["items"]}
    for it in ph["items"]:
        if it.get("exp"):
            n = ln[it["id"]]
            x = fw.check_exp(it["exp"], sec[n], err.get(n, "")) if n in sec else "never ran"
            if x:
                bad.append(("item:" + it["id"], "%s: %s" % (it["t"][:300], x)))
    for e in case["events"]:
        it = have.get(e[0])
        if it is None or it.get("lost"):
            continue
        n = ln[e[0]]
        if n not in sec:
            bad.append(("item:" + e[0], "never ran: %s" % it["t"][:200]))
            continue
        o, er = strip_prompt(sec[n]).rstrip("\n"), err.get(n, "")
        v = int(e[2], 16)
        say = lambda s: bad.append(("item:" + e[0], "%s: %s; output %r messages %r" % (it["t"][:300], s, o[:300], er[:300])))
        timed = any(l.startswith("FIRE sat ") for l in logs.get(n, []))
        if e[1] == "model":
            if timed and "Timeout" in er + o:
                continue
            if o == "[=1;]" or o == '[""=1;]':
                if v != m.full:
                    say("every assignment is claimed to be a model")
                continue
            mm = re.fullmatch(r"\[((?:[^;=]+=[01];)*)\]", o)
            if not mm:
                say("not a model" + (" (and no time limit expired)" if "Timeout" in er else ""))
                continue
            asg = [x.split("=") for x in mm.group(1).split(";") if x]
            if not asg:
                if v:
                    say("no model of a satisfiable formula")
                continue
            w = v
            for a, b in asg:
                if a not in ix:
                    say("unknown variable " + a)
                    break
                w = m.cof(w, ix[a], int(b))
            else:
                if len(set(a for a, _ in asg)) != len(asg):
                    say("a variable has two values")
                if w != m.full:
                    say("not a model of the formula")
        elif e[1] == "unsat":
            want = ["1" if v == 0 else "0"] + (["0"] if timed else [])
            if o not in want:
                say("expected %s%s" % ("T" if v == 0 else "F", "" if timed else " (no time limit expired)"))
        elif e[1] == "bdd":
            try:
                if m.parse(o) != v:
                    say("function %x instead of %x" % (m.parse(o), v))
            except (ValueError, IndexError) as x:
                say(str(x))
        elif e[1] == "tree":
            if o == "big" or len(o) > 900:
                continue
            try:
                w = parse_tree(m, o)
                if w != v:
                    say("function %x instead of %x" % (w, v))
            except (ValueError, IndexError, KeyError) as x:
                say("not a structure: %r" % (x,))
        elif e[1] == "deps":
            got = [x for x in o[1:-1].split(";") if x]
            if not o.startswith("[") or not set(m.names[i] for i in m.dep(v)) <= set(got) or not set(got) <= set(m.names) or len(set(got)) != len(got):
                say("depends on %r" % sorted(m.names[i] for i in m.dep(v)))
        elif e[1] == "same":
            if o not in ("0", "1") or (o == "1" and e[2] != e[3]):
                say("different functions are equal" if o == "1" else "neither T nor F")
    return bad
