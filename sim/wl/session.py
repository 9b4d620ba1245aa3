"""Sessions: values of every kind held in every kind of place, with garbage in
between, read back later. Expected values come from the Python model."""
import random
import re
import flgen
from flgen import Gen, Node, Tt, TooBig, FlErr, shower, ty_text, fl_str, VARS
from framework import shown

PRE = [("pre", "\n".join(flgen.PRELUDE + [
    "let bsub = [%s];" % ",".join('("%s", variable "%s")' % (v, v) for v in VARS),
    'update_vossrc "VERBOSE-DYNAMIC-ORDERING" "NO";',
    "let churn n = itlist (\\x.\\y. (x * 3 + y) % 1000003) (1 upto n) 0;",
    "let schurn n = strlen (implode (map int2str (1 upto n)));",
    "let bchurn n = itlist (\\x.\\y. (variable (\"ch\"^(int2str x))) XOR y) (1 upto n) F;",
]))]


def churn(n):
    v = 0
    for x in range(n, 0, -1):
        v = (x * 3 + v) % 1000003
    return v


class Sess:
    def __init__(self, rng, arm=True, use_bool=True):
        self.r = rng
        self.items = [{"id": i, "t": t, "exp": None, "keep": True} for i, t in PRE]
        if arm:
            self.items.append({"id": "arm", "t": "#arm", "exp": None, "keep": True})
        self.g = Gen(rng, use_bool=use_bool)
        self.env = {}            # values of fl variables usable in expressions
        self.k = 0
        self.probes = []         # functions giving (text, type, value)

    def nid(self, p="i"):
        self.k += 1
        return "%s%d" % (p, self.k)

    def add(self, text, exp=None, keep=False):
        i = self.nid()
        self.items.append({"id": i, "t": text, "exp": exp, "keep": keep})
        return i

    def show(self, text, t, v):
        self.add("show_line (%s (%s));" % (shower(t), text), shown(t, v))

    def value(self, t=None, d=None, env=()):
        """A closed expression (over the session's variables) with its value."""
        for _ in range(30):
            tt = t or self.g.rtype()
            x = self.g.expr(tt, d if d is not None else self.r.choice([1, 2, 2, 3, 3, 4]), env)
            try:
                v = x.ev(self.env)
            except TooBig:
                continue
            if len(x.text) < 3000 and len(repr(v)) < 3000:
                return tt, x.text, v
        tt = t or "int"
        x = self.g.leaf(tt)
        return tt, x.text, x.ev(self.env)

    def fun(self, ta, tr, d=2):
        """A one-argument function: text of a lambda and its Python meaning."""
        for _ in range(30):
            tx, mk = self.g.lam([ta], tr, d, ())
            if len(tx) > 2500:
                continue
            f = mk(dict(self.env))
            try:
                for _ in range(3):
                    a = self.g.leaf(ta)
                    f(a.ev(self.env))
            except TooBig:
                continue
            return tx, f
        n = self.g.fresh("p")
        x = self.g.leaf(tr)
        env = dict(self.env)
        return "(\\%s. %s)" % (n, x.text), lambda a: x.ev(env)

    # ------------------------------------------------------------- holders
    def h_let(self):
        t, tx, v = self.value()
        n = self.nid("v")
        self.add("let %s = %s;" % (n, tx), ["quiet"])
        self.env[n] = v
        self.g.vars.append((n, t))
        return lambda: (n, t, v)

    def h_letrec_lazy(self):
        """Infinite list, consumed piecewise."""
        n = self.nid("v")
        t, tx, v = self.value(d=2)
        tf, f = self.fun("int", t, 1)
        self.add("letrec g%s k = (%s k):(g%s (k+1));" % (n, tf, n), ["quiet"])
        s = self.r.randint(0, 5)
        self.add("let %s = g%s %d;" % (n, n, s), ["quiet"])

        def probe():
            c = self.r.randint(1, 6)
            return "firstn %d %s" % (c, n), ("list", t), [f(s + i) for i in range(c)]
        return probe

    def h_cyclic(self):
        n = self.nid("v")
        t = self.g.rtype(1)
        vs = [self.value(t, 2) for _ in range(self.r.randint(1, 3))]
        self.add("letrec %s = %s:%s;" % (n, ":".join("(%s)" % x[1] for x in vs), n), ["quiet"])

        def probe():
            c = self.r.randint(1, 8)
            return "firstn %d %s" % (c, n), ("list", t), [vs[i % len(vs)][2] for i in range(c)]
        return probe

    def h_lettype(self):
        n = self.nid("")
        t1, t2 = self.g.rtype(1), self.g.rtype(1)
        more = "".join(" | X%s_%d %s %s" % (n, i, ty_text(self.g.rtype(0)), "ty%s" % n if self.r.random() < .5 else "int") for i in range(self.r.choice([0, 0, 2, 9])))
        self.add("lettype ty%s = L%s %s | N%s ty%s %s ty%s%s;" % (n, n, ty_text(t1), n, n, ty_text(t2), n, more), ["quiet"])
        self.add("letrec fl%s (L%s i) = [i] /\\ fl%s (N%s a s b) = (fl%s a) @ (fl%s b);" % (n, n, n, n, n, n), ["quiet"])
        self.add("letrec fn%s (N%s a s b) = (fn%s a) @ [s] @ (fn%s b) /\\ fn%s (L%s i) = {[]::(%s list)};" % (n, n, n, n, n, n, ty_text(t2)), ["quiet"])

        def tree(d):
            if d == 0 or self.r.random() < .3:
                _, x, v = self.value(t1, 2)
                return "(L%s (%s))" % (n, x), [v], []
            a, la, na = tree(d - 1)
            b, lb, nb = tree(d - 1)
            _, x, v = self.value(t2, 1)
            return "(N%s %s (%s) %s)" % (n, a, x, b), la + lb, na + [v] + nb
        x, leaves, nodes = tree(3)
        self.add("let tr%s = %s;" % (n, x), ["quiet"])
        return lambda: (("fl%s tr%s" % (n, n), ("list", t1), leaves) if self.r.random() < .5 else ("fn%s tr%s" % (n, n), ("list", t2), nodes))

    def h_abstype(self):
        n = self.nid("")
        t = self.g.rtype(1)
        self.add("\n".join(["begin_abstype;", "lettype stk%s = MT%s | PSH%s %s stk%s;" % (n, n, n, ty_text(t), n),
                            "let push%s x s = PSH%s x s;" % (n, n), "let emp%s = MT%s;" % (n, n),
                            "letrec cont%s (PSH%s x s) = x:(cont%s s) /\\ cont%s MT%s = [];" % (n, n, n, n, n),
                            "end_abstype push%s emp%s cont%s;" % (n, n, n)]), ["quiet"])
        cur, vals, k = "emp%s" % n, [], 0
        for _ in range(self.r.randint(1, 4)):
            _, x, v = self.value(t, 2)
            k += 1
            self.add("let s%s_%d = push%s (%s) %s;" % (n, k, n, x, cur), ["quiet"])
            cur = "s%s_%d" % (n, k)
            vals.insert(0, v)
        c, vs = cur, list(vals)
        return lambda: ("cont%s %s" % (n, c), ("list", t), vs)

    def h_ref(self):
        n = self.nid("r")
        t, x, v = self.value()
        self.add("let %s = ref (%s);" % (n, x), ["quiet"])
        st = [v]

        def probe():
            if self.r.random() < .5:
                _, x, v = self.value(t)
                self.add("%s := %s;" % (n, x), ["quiet"], keep=True)
                st[0] = v
            if self.r.random() < .3 and t == "int":
                self.add("%s := (deref %s) + 1;" % (n, n), ["quiet"], keep=True)
                st[0] += 1
            if t[0] == "list" and self.r.random() < .4:
                _, x, v = self.value(t[1], 1)
                self.add("%s := (%s):(deref %s);" % (n, x, n), ["quiet"], keep=True)
                st[0] = [v] + st[0]
            return "deref %s" % n, t, st[0]
        return probe

    def h_table(self):
        n = self.nid("tb")
        kt = self.r.choice(["int", "str"])
        t = self.g.rtype(1)
        d = {}
        self.add("let %s_0 = tbl_create %d;" % (n, self.r.choice([1, 2, 5, 100])), ["quiet"])
        st = [0]

        def key():
            return self.r.randint(-3, 40) if kt == "int" else self.r.choice("abcdefgh") * self.r.randint(1, 2)
        ft = lambda k: ("(%d)" % k if kt == "int" else fl_str(k))

        def ins(m):
            for _ in range(m):
                if d and self.r.random() < .2:
                    k = self.r.choice(sorted(d))
                    self.add("let %s_%d = tbl_delete %s_%d %s;" % (n, st[0] + 1, n, st[0], ft(k)), ["quiet"])
                    del d[k]
                else:
                    k = key()
                    if k in d:
                        continue
                    _, x, v = self.value(t, 2)
                    self.add("let %s_%d = tbl_insert %s_%d %s (%s);" % (n, st[0] + 1, n, st[0], ft(k), x), ["quiet"])
                    d[k] = v
                st[0] += 1
        ins(self.r.randint(1, 5))

        def probe():
            if self.r.random() < .4:
                ins(self.r.randint(1, 2))
            cur = "%s_%d" % (n, st[0])
            if self.r.random() < .3:
                return "table_size %s" % cur, "int", len(d)
            if d and self.r.random() < .8:
                k = self.r.choice(sorted(d))
                return "tbl_get %s %s" % (cur, ft(k)), t, d[k]
            k = key()
            return "tbl_member %s %s" % (cur, ft(k)), "bool", flgen.const(k in d)
        return probe

    def h_memo(self):
        n = self.nid("m")
        ta = self.r.choice(["int", "str", ("list", "int"), ("pair", "int", "str")] + (["bool"] if self.g.use_bool else []))
        tr = self.g.rtype(1)
        p = self.g.fresh("p")
        for _ in range(30):
            b = self.g.expr(tr, 3, ((p, ta),))
            env = dict(self.env)
            try:
                args = [self.value(ta, 1) for _ in range(4)]
                outs = [b.ev({**env, p: a[2]}) for a in args]
            except TooBig:
                continue
            if len(b.text) < 2500:
                break
        else:
            b = self.g.leaf(tr)
            outs = [b.ev({}) for a in args]
        self.add("clet %s %s = %s;" % (n, p, b.text), ["quiet"])

        def probe():
            i = self.r.randrange(4)
            if self.r.random() < .1:
                self.add("clean_clets ();", ["quiet"])
            return "%s (%s)" % (n, args[i][1]), tr, outs[i]
        return probe

    def h_memorec(self):
        n = self.nid("m")
        m = self.r.randint(5, 40)
        a, b = self.r.randint(0, 9), self.r.randint(1, 9)
        form = self.r.random() < .5
        if form:
            self.add("cletrec %s n = n < 2 => n + %d | (%s (n-1) + %d * (%s (n-2))) %% 1000007;" % (n, a, n, b, n), ["quiet"])

            def f(k):
                x = [a, 1 + a]
                for i in range(2, k + 1):
                    x.append((x[i - 1] + b * x[i - 2]) % 1000007)
                return x[k]
            return lambda: (lambda k: ("%s %d" % (n, k), "int", f(k)))(self.r.randint(2, m))
        self.add("cletrec %s x y = (x * y) = 0 => %d | (%s (x-1) y + %s x (y-1) + %d) %% 1000007;" % (n, a, n, n, b), ["quiet"])

        def f2(x, y):
            t = [[a] * (y + 1) for _ in range(x + 1)]
            for i in range(1, x + 1):
                for j in range(1, y + 1):
                    t[i][j] = (t[i - 1][j] + t[i][j - 1] + b) % 1000007
            return t[x][y]
        return lambda: (lambda x, y: ("%s %d %d" % (n, x, y), "int", f2(x, y)))(self.r.randint(1, 8), self.r.randint(1, 8))

    def h_closure(self):
        n = self.nid("f")
        ta, tr = self.g.rtype(1), self.g.rtype(1)
        y = self.g.fresh("y")
        ty, yx, yv = self.value(d=3)
        save = dict(self.env)
        p = self.g.fresh("p")
        for _ in range(30):
            b = self.g.expr(tr, 2, ((p, ta), (y, ty)))
            try:
                args = [self.value(ta, 1) for _ in range(2)]
                outs = [b.ev({**save, p: a[2], y: yv}) for a in args]
                if len(b.text) > 2500:
                    continue
                break
            except TooBig:
                continue
        else:
            b = self.g.leaf(tr)
            outs = [b.ev({}) for a in args]
        self.add("let %s = let %s = %s in (\\%s. %s);" % (n, y, yx, p, b.text), ["quiet"])
        return lambda: (lambda i: ("%s (%s)" % (n, args[i][1]), tr, outs[i]))(self.r.randrange(2))

    def h_partial(self):
        n = self.nid("f")
        ts = [self.g.rtype(1) for _ in range(3)]
        tr = self.g.rtype(1)
        for _ in range(30):
            tx, mk = self.g.lam(ts, tr, 2, ())
            f = mk(dict(self.env))
            try:
                a = [self.value(t, 2) for t in ts]
                v = f(*[x[2] for x in a])
            except TooBig:
                continue
            if len(tx) < 2500:
                break
        else:
            return self.h_let()
        self.add("let %s = %s;" % (n, tx), ["quiet"])
        k = self.r.randint(1, 2)
        self.add("let %sp = %s %s;" % (n, n, " ".join("(%s)" % x[1] for x in a[:k])), ["quiet"])
        return lambda: ("%sp %s" % (n, " ".join("(%s)" % x[1] for x in a[k:])), tr, v)

    def h_funlist(self):
        n = self.nid("f")
        ta, tr = self.g.rtype(0), self.g.rtype(0)
        fs = [self.fun(ta, tr) for _ in range(self.r.randint(1, 3))]
        _, ax, av = self.value(ta, 1)
        try:
            outs = [f(av) for _, f in fs]
        except TooBig:
            return self.h_let()
        self.add("let %s = [%s];" % (n, ",".join("(%s)" % x for x, _ in fs)), ["quiet"])
        if self.r.random() < .5:
            return lambda: ("map (\\q. q (%s)) %s" % (ax, n), ("list", tr), outs)
        return lambda: (lambda i: ("(el %d %s) (%s)" % (i + 1, n, ax), tr, outs[i]))(self.r.randrange(len(fs)))

    def h_bexpr(self):
        n = self.nid("b")
        a, b = self.value("bool", 3), self.value("bool", 2)
        x = "hd (bool2bexpr [(%s)])" % a[1]
        k = self.r.randrange(4)
        if k == 0:
            self.add("let %s = %s;" % (n, x), ["quiet"])
            v = a[2]
        elif k == 1:
            self.add("let %s = (%s) bAND (bNOT (hd (bool2bexpr [(%s)])));" % (n, x, b[1]), ["quiet"])
            v = Tt(a[2].m & ~b[2].m)
        elif k == 2:
            self.add("let %s = (%s) bOR (hd (bool2bexpr [(%s)]));" % (n, x, b[1]), ["quiet"])
            v = Tt(a[2].m | b[2].m)
        else:
            self.add("let %s = (%s) bXOR (hd (bool2bexpr [(%s)]));" % (n, x, b[1]), ["quiet"])
            v = Tt(a[2].m ^ b[2].m)
        return lambda: ("base_bexpr2bdd bsub %s" % n, "bool", v)

    def h_bv(self):
        n = self.nid("w")
        a, b = self.r.randint(-300, 300), self.r.randint(-300, 300)
        op, f = self.r.choice([("bv_add", lambda x, y: x + y), ("bv_sub", lambda x, y: x - y), ("bv_mul", lambda x, y: x * y)])
        c = self.r.randint(-40, 40)
        cond = self.value("bool", 2)
        if self.r.random() < .5:
            self.add("let %s = bv_add (%s (int2bv (%d)) (int2bv (%d))) (int2bv (%d));" % (n, op, a, b, c), ["quiet"])
            return lambda: ("bv2int %s" % n, "int", f(a, b) + c)
        # a vector with symbolic bits, compared with a constant
        self.add("let %s = bv_add (list2bv [F,%s,F,%s]) (int2bv (%d));" % (n, cond[1], cond[1], c), ["quiet"])
        # bits: 0 m 0 m = 5 or 0
        return lambda: ("bv_eq %s (int2bv (%d))" % (n, c + 5), "bool", Tt(cond[2].m)) if c + 5 != c else None

    def h_pairval(self):
        n = self.nid("q")
        a, b = self.value(), self.value()
        self.add("val (%sa,%sb) = (%s, %s);" % (n, n, a[1], b[1]), ["quiet"])
        return lambda: ("%sa" % n, a[0], a[2]) if self.r.random() < .5 else ("%sb" % n, b[0], b[2])

    def h_forward(self):
        n = self.nid("fw")
        tx, f = self.fun("int", "int")
        k = self.r.randint(0, 9)
        try:
            v = f(k) + 1
        except TooBig:
            return self.h_let()
        self.add("forward_declare {%s :: int->int};" % n, ["quiet"])
        self.add("let %su x = (%s x) + 1;" % (n, n), ["quiet"])
        self.add("let %s {x::int} = 0 + ((%s) x);" % (n, tx), ["quiet"])
        return lambda: ("%su %d" % (n, k), "int", v)

    def h_overload(self):
        n = self.nid("ov")
        self.add("let %s_i {a::int} = a + %d;" % (n, 1), ["quiet"])
        self.add('let %s_s {a::string} = a ^ "!";' % n, ["quiet"])
        self.add("let %s_l {a::int list} = length a;" % n, ["quiet"])
        self.add("overload %s %s_i %s_s %s_l;" % (n, n, n, n), ["quiet"])
        a, b, c = self.value("int", 2), self.value("str", 2), self.value(("list", "int"), 2)
        opts = [("%s (%s)" % (n, a[1]), "int", a[2] + 1), ("%s (%s)" % (n, b[1]), "str", b[2] + "!"), ("%s (%s)" % (n, c[1]), "int", len(c[2]))]
        return lambda: self.r.choice(opts)

    def h_shadow(self):
        """A function that uses a definition which is then shadowed."""
        n = self.nid("sh")
        t, x, v = self.value()
        self.add("let %s = %s;" % (n, x), ["quiet"])
        self.add("let %sf q = %s;" % (n, n), ["quiet"])
        self.add('let %s = "shadow";' % n, ["quiet"])
        return lambda: ("%sf 1" % n, t, v)

    def h_catch(self):
        n = self.nid("c")
        t, x, v = self.value()
        self.add('let %s = (error "boom %s") gen_catch (\\m. (str_is_substr "boom %s" m, %s));' % (n, n, n, x), ["quiet"])
        return lambda: (n, ("pair", "bool", t), (flgen.TT, v))

    def h_deep(self):
        n = self.nid("d")
        k = self.r.choice([50, 300, 900])
        self.add("letrec %s n = n = 0 => [] | (n, int2str n):(%s (n-1));" % (n, n), ["quiet"])
        self.add("let %sv = %s %d;" % (n, n, k), ["quiet"])
        return lambda: ("itlist (\\q.\\z. (fst q) + (strlen (snd q)) + z) %sv 0" % n, "int", sum(i + len(str(i)) for i in range(1, k + 1)))

    def h_loop(self):
        """A non-tail-recursive builder, consumed twice (sharing)."""
        n = self.nid("lp")
        t, x, v = self.value(d=2)
        self.add("let %s = let z = %s in replicate %d z;" % (n, x, 12), ["quiet"])
        return lambda: ("length %s, hd %s, last %s" % (n, n, n), ("pair", "int", ("pair", t, t)), (12, (v, v)))

    def h_printer(self):
        """A user-defined printer, a closure held by nothing else."""
        n = self.nid("")
        _, w, wv = self.value("str", 2)
        self.add("lettype pc%s = R%s int | G%s string | P%s pc%s pc%s;" % ((n,) * 6), ["quiet"], keep=True)
        self.add("letrec pv%s (R%s n) = int2str n /\\ pv%s (G%s s) = int2str (strlen s) /\\ pv%s (P%s a b) = (pv%s a) ^ \",\" ^ (pv%s b);" % ((n,) * 8), ["quiet"], keep=True)
        if self.r.random() < .5:
            self.add("let pm%s w = \\c. \"<\" ^ (int2str (strlen w)) ^ \":\" ^ (pv%s c) ^ \">\";" % (n, n), ["quiet"], keep=True)
            self.add("install_print_function (pm%s (%s));" % (n, w), ["quiet"], keep=True)
        else:
            self.add("install_print_function (let w = %s in (\\c. \"<\" ^ (int2str (strlen w)) ^ \":\" ^ (pv%s c) ^ \">\"));" % (w, n), ["quiet"], keep=True)
        self.items[-1]["defs"] = ["R" + n, "G" + n, "P" + n]
        lw = len(wv)

        def one(d=2):
            k = self.r.randrange(3 if d else 2)
            if k == 2:
                a, b = one(d - 1), one(d - 1)
                return "(P%s %s %s)" % (n, a[0], b[0]), a[1] + "," + b[1]
            if k:
                m = self.r.randint(0, 5)
                return '(G%s "%s")' % (n, "x" * m), str(m)
            m = self.r.randint(0, 99)
            return "(R%s %d)" % (n, m), str(m)

        def wrap(c):
            return "<%d:%s>" % (lw, c)

        def probe():
            k = self.r.randrange(3)
            a, b = one(), one()

            def text(t):
                return ["re", "(?s)\\s*" + re.escape(t) + "\\s*(\nit::[^\n]*)?\\s*"]
            if k == 0:
                self.add("%s;" % a[0], text(wrap(a[1])))
            elif k == 1:
                self.add("[%s,%s];" % (a[0], b[0]), text("[%s,%s]" % (wrap(a[1]), wrap(b[1]))))
            else:
                self.add("(%s,%s);" % (a[0], b[0]), text("(%s, %s)" % (wrap(a[1]), wrap(b[1]))))
        return probe

    def h_default(self):
        """Default values of arguments, held by the definition alone."""
        n = self.nid("df")
        t, x, v = self.value(None, 3)
        _, y, yv = self.value("int", 2)
        pos = self.r.random() < .7       # or every argument has a default
        self.add("let %s %s p->(%s) q->(%s) = (p, %sq);" % (n, "m" if pos else "", x, y, "m + " if pos else ""), ["quiet"], keep=True)

        def probe():
            a = self.r.randint(0, 50) if pos else 0
            tx, p, q = "%s %d" % (n, a) if pos else n, v, yv
            named = []
            if self.r.random() < .4:
                _, px, p = self.value(t, 1)
                named.append("p->(%s)" % px)
            if self.r.random() < .4:
                q = self.r.randint(0, 9)
                named.append("q->%d" % q)
            self.r.shuffle(named)
            return " ".join([tx] + named), ("pair", t, "int"), (p, a + q)
        return probe

    def h_infix(self):
        n = self.nid("ix")
        k, o = self.r.choice([(10, "infix"), (7, "infixr")])
        if o == "infix":
            self.add("infix 4 %s;" % n, ["quiet"])
            self.items[-1]["defs"] = [n]
            self.add("let %s a b = a * %d + b;" % (n, k), ["quiet"])
        else:
            self.add("let %s a b = a * %d + b;" % (n, k), ["quiet"])
            self.add("infixr 4 %s;" % n, ["quiet"])
            self.items[-1]["defs"] = [n]

        def probe():
            a, b, c = [self.r.randint(0, 30) for _ in range(3)]
            if o == "infix":
                return "%d %s %d %s %d" % (a, n, b, n, c), "int", (a * k + b) * k + c
            return "%d %s %d %s %d" % (a, n, b, n, c), "int", a * k + (b * k + c)
        return probe

    def h_bigint(self):
        n = self.nid("bi")
        b, k = self.r.choice([-7, 3, 10, 999, 65537]), self.r.randint(20, 90)
        self.add("let %s = itlist (\\a.\\b. a * b) (replicate %d (%d)) 1;" % (n, k, b), ["quiet"])
        v = b ** k
        m = self.r.randint(2, 10 ** 6)

        def probe():
            j = self.r.randrange(4)
            if j == 0:
                return n, "int", v
            if j == 1:
                return "%s * %s - %d" % (n, n, m), "int", v * v - m
            if j == 2:
                return "(%s + 1) = %s" % (n, n), "bool", flgen.const(False)
            return "%s - (%s - %d)" % (n, n, m), "int", m
        return probe

    # ------------------------------------------------------------- garbage
    def noise(self):
        k = self.r.randrange(8)
        if k == 0:
            n = self.r.choice([20, 80, 200])
            self.show("churn %d" % n, "int", churn(n))
        elif k == 1:
            n = self.r.choice([20, 60])
            self.show("schurn %d" % n, "int", sum(len(str(i)) for i in range(1, n + 1)))
        elif k == 2 and self.g.use_bool:
            self.show("(bchurn %d) == (bchurn %d)" % (9, 9), "bool", flgen.TT)
        elif k == 3:
            self.add('error "deliberate %d";' % self.k, ["err", "deliberate %d" % self.k])
        elif k == 4:
            self.add("undefined_name_%d;" % self.k, ["err", "undefined_name_%d" % self.k])
        else:
            t, x, v = self.value()
            self.show(x, t, v)


HOLDERS = ["h_let", "h_let", "h_let", "h_letrec_lazy", "h_cyclic", "h_lettype", "h_abstype", "h_ref", "h_ref", "h_table", "h_memo", "h_memorec",
           "h_closure", "h_partial", "h_funlist", "h_bexpr", "h_bv", "h_pairval", "h_forward", "h_overload", "h_shadow", "h_catch", "h_deep", "h_loop", "h_printer", "h_printer", "h_default", "h_default", "h_infix", "h_bigint"]


def session(rng, holders=HOLDERS, n=None, use_bool=True, noise=.5, arm=True):
    s = Sess(rng, use_bool=use_bool, arm=arm)
    pool = rng.sample(sorted(set(holders)), min(len(set(holders)), rng.randint(3, 8)))
    for _ in range(n or rng.randint(4, 9)):
        s.probes.append(getattr(s, rng.choice(pool))())
        if rng.random() < noise:
            s.noise()
        if rng.random() < .4:
            p = rng.choice(s.probes)()
            if p:
                s.show(*p)
    order = list(s.probes)
    rng.shuffle(order)
    for p in order:
        q = p()
        if q:
            s.show(*q)
        if rng.random() < .2:
            s.noise()
    s.add("quit;", None, keep=True)
    return s
