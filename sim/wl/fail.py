"""Failures: expressions that may fail, statements that fail, structures with failing parts."""
import random
import flgen, session
from flgen import Tt, TooBig, fl_str, const, VARS, VARTT
from framework import shown, jv
import framework as fw

PRE = [
    'letrec ffs n = n = 0 => 0 | 1 + (ffs (n-1));',
    'let ff_pat 1 = 10 /\\ ff_pat 2 = 20;',
    'let ff_chk k n = n = k => error (sprintf "boom chk%d" k) | n * 3;',
]


class Boom(Exception):
    """The expression fails."""


class F:
    """Fallible expressions. ev(env) gives the value or raises Boom; env maps names to thunks."""

    def __init__(self, s):
        self.s, self.r, self.n = s, s.r, 0

    def fresh(self):
        self.n += 1
        return "fe%d_%d" % (self.s.k, self.n)

    def ok(self, t, d=1):
        _, x, v = self.s.value(t, d)
        return "(%s)" % x, lambda e: v

    def bad(self, t):
        x, b = self.bad1(t)
        return "({%s::%s})" % (x, flgen.ty_text(t)), b

    def bad1(self, t):
        r = self.r
        k = r.randrange(9)

        def boom(e):
            raise Boom()
        if t == "int":
            c = ["(1/0)", "(5%0)", "(ff_pat 7)", "(ff_chk 4 4)", '(s2int "zz")', "(hd {[]::int list})", "(el 9 [1,2])", '(strlen (error "boom"))', '(error "boom")']
            return c[k], boom
        if t == "str":
            return r.choice(['(error "boom")', "(hd {[]::string list})", '("a" ^ (error "boom"))', "(int2str (1/0))", '(sprintf "%d" (ff_pat 3))']), boom
        if t == "bool":
            return r.choice(['(error "boom")', "((1/0) = 3)", '((variable "va") XOR (error "boom"))', '(variable (error "boom"))',
                             '(substitute [("va", error "boom")] (variable "va"))', '(NOT (error "boom"))', '(Quant_forall [error "boom"] (variable "vb"))',
                             '((variable "vb") AND (error "boom"))']), boom
        return r.choice(['(error "boom")', "(map (\\q. q / 0) [1,2])", "(1:2:(error \"boom\"))", "(tl {[]::int list})", "(butlast {[]::int list})",
                         "(flat [[1],[2/0]])", "(qsort (\\a.\\b. a - (b / 0)) [3,1,2])", "(filter (\\q. (ff_chk 2 q) > 3) [1,2,3])"]), boom

    def expr(self, t, d, env=()):
        r = self.r
        loc = [x for x in env if x[1] == t]
        if loc and r.random() < .35:
            n = r.choice(loc)[0]
            return n, lambda e: e[n]()
        if d <= 0:
            return self.bad(t) if r.random() < .35 else self.ok(t)
        E = lambda tt=t: self.expr(tt, d - 1, env)
        k = r.randrange(14)
        if k < 3:
            (ax, a), (bx, b) = E(), E()

            def ev(e):
                try:
                    return a(e)
                except Boom:
                    return b(e)
            return "(%s catch %s)" % (ax, bx), ev
        if k < 5:
            (ax, a), (bx, b) = E(), E()

            def ev(e):
                try:
                    return a(e)
                except Boom:
                    return b(e)
            m = self.fresh()
            return '(%s gen_catch (\\%s. (strlen %s) > 2 => %s | %s))' % (ax, m, m, bx, self.bad(t)[0]), ev
        if k == 5:
            (ax, a), (bx, b) = E(), E()
            c = r.random() < .5
            return "((strlen \"%s\") = 2 => %s | %s)" % ("ab" if c else "abc", ax, bx), lambda e: a(e) if c else b(e)
        if k < 8:
            t2 = self.rt()
            n = self.fresh()
            ax, a = E(t2)
            bx, b = self.expr(t, d - 1, tuple(env) + ((n, t2), (n, t2)))
            form = r.choice(["(let %s = %s in %s)" % (n, ax, bx), "((\\%s. %s) %s)" % (n, bx, ax)])

            def ev(e):
                memo = []

                def th():
                    if not memo:
                        try:
                            memo.append((a(e), 0))
                        except Boom:
                            memo.append((None, 1))
                    if memo[0][1]:
                        raise Boom()
                    return memo[0][0]
                return b({**e, n: th})
            return form, ev
        if k == 8:
            (ax, a), (bx, b) = E(), E(self.rt())
            return "(fst (%s,%s))" % (ax, bx), a
        if k == 9:
            (ax, a), (bx, b) = E(self.rt()), E()
            return "(%s fseq %s)" % (ax, bx), lambda e: (a(e), b(e))[1]
        if k == 10:
            n = self.fresh()
            vals = [r.randint(0, 6) for _ in range(r.randint(0, 5))]
            dx, dv = self.ok("int", 1)
            tx = "(map (\\%s. (%s) catch %s) [%s])" % (n, r.choice(["ff_pat %s" % n, "ff_chk 4 %s" % n, "60 / %s" % n]), dx, ",".join(map(str, vals)))
            fn = tx

            def ev(e):
                out = []
                for v in vals:
                    if "ff_pat" in fn:
                        out.append(v * 10 if v in (1, 2) else dv(e))
                    elif "ff_chk" in fn:
                        out.append(dv(e) if v == 4 else v * 3)
                    else:
                        out.append(60 // v if v else dv(e))
                return out
            if t == ("list", "int"):
                return tx, ev
            if t == "int":
                return "(itlist (\\a.\\b. a + b) %s 0)" % tx, lambda e: sum(ev(e))
        (ax, a), (bx, b) = E(), E()
        if t == "int":
            o, f = r.choice([("+", lambda x, y: x + y), ("-", lambda x, y: x - y)])
        elif t == "str":
            o, f = "^", lambda x, y: x + y
        elif t == "bool":
            o, f = "XOR", lambda x, y: Tt(x.m ^ y.m)
        else:
            o, f = "@", lambda x, y: x + y
        return "(%s %s %s)" % (ax, o, bx), lambda e: f(a(e), b(e))

    def rt(self):
        return self.r.choice(["int", "str", ("list", "int")] + (["bool"] if self.s.g.use_bool else []))

    def make(self, d=None, t=None):
        """(type, text, value or Boom)"""
        for _ in range(20):
            tt = t or self.rt()
            x, f = self.expr(tt, d or self.r.choice([1, 2, 3, 4]))
            if len(x) > 4000:
                continue
            try:
                v = f({})
            except Boom:
                return tt, x, Boom
            if isinstance(v, (list, str)) and len(v) > 600:
                continue
            return tt, x, v
        return tt, "(error \"boom\")", Boom


def show_f(s, f, **kw):
    t, x, v = f.make(**kw)
    if v is Boom:
        s.add("show_line (%s %s);" % (flgen.shower(t), x), ["err", "Failure"])
    else:
        s.show(x, t, v)


def failing_statement(s, f):
    """One statement that must fail with a message and define nothing."""
    r = s.r
    have = [n for n, _ in s.g.vars] or ["churn"]
    v = r.choice(have)       # an existing name, whose definition must survive
    new = s.nid("nx")
    k = r.randrange(29)
    tx = s.value(d=2)[1]
    tab = {
        0: ('let %s = 1 + "a";' % v, "ype mismatch"),
        1: ("let %s = (%s ;" % (v, tx), "yntax error"),
        2: ("let %s = undef_%s %s;" % (v, new, tx), "undef_"),
        3: ("let %s q = q + zz_%s;" % (v, new), "zz_"),
        4: ("lettype ty%s = %s_A int | %s_B nosuchtype;" % (new, new.upper(), new.upper()), "nosuchtype"),
        5: ("lettype ty%s = %s_A int | %s_A string;" % (new, new.upper(), new.upper()), "Duplicated"),
        6: ("overload %s churn no_%s;" % (v, new), "no_"),
        7: ('load "no_such_%s.fl";' % new, "Cannot open"),
        8: ("letrec %s 1 = 2 /\\ other%s 2 = 3;" % (v, new), "nconsistent"),
        9: ("val (%s, q%s) = 1 + ;" % (v, new), "yntax error"),
        10: ("%s := 3;" % new, new),
        11: (");", "yntax error"),
        12: ("let %s = \\x. ;" % v, "yntax error"),
        13: ('let %s = (\\x. x x) 3;' % v, "rror"),
        14: ("(ffs 30000);", "imit"),
        15: ('fprintf stdout "%%d\\n" (%s fseq (1/0));' % tx, "Division by zero"),
        16: ('show_line (%s fseq (error "boom"));' % tx, "boom"),
        17: ('(IF (variable "va") THEN (error "boomt") ELSE F) fseq show_line "x";', "boomt"),
        18: ('(IF (variable "va") THEN T ELSE (error "boome")) fseq show_line "x";', "boome"),
        19: ("clet %s q = q + zz_%s;" % (v, new), "zz_"),
        20: ("cletrec %s q = %s (q + \"a\");" % (v, v), "ype"),
        21: ("letrec %s q = %s (q + \"a\") + 1;" % (v, v), "ype"),
        22: ("end_abstype %s;" % v, "end_abstype"),
        23: ("bdd_load \"no_such_%s\";" % new, "Cannot open"),
        24: ("let %s {q::int} = q ^ \"a\";" % v, "ype"),
        25: ("length (ffs_list 20000);", "ffs_list"),
        27: ('(substitute [("va", (variable "vb") AND (variable "vc")),("vd",T),("va",(variable "ve"))] ((variable "va") XOR (variable "vd"))) fseq show_line "x";', "Repeated"),
        28: ('(substitute [("va", (variable "ve") AND (NOT (variable "vc"))),("vd", error "boomq")] ((variable "va") XOR (variable "vd"))) fseq show_line "x";', "boomq"),
        26: ("(map (\\q. (ffs q)) [3,40000,5]) fseq show_line \"x\";", "imit"),
    }
    t, e = tab[k]
    s.add(t, ["err", e])
    if k in (4, 5):
        s.add("%s_A;" % new.upper(), ["err", "Unidentified"])
        if r.random() < .5:
            s.add("lettype ty%s = %s_A int | %s_B string;" % (new, new.upper(), new.upper()), ["quiet"])
            s.add('let un_%s (%s_A i) = int2str i /\\ un_%s (%s_B s) = s;' % (new, new.upper(), new, new.upper()), ["quiet"])
            s.add('show_line ((un_%s (%s_A 4)) ^ (un_%s (%s_B "z")));' % (new, new.upper(), new, new.upper()), ["text", "4z"])
    if k in (9,) and r.random() < .5:
        s.add("q%s;" % new, ["err", "Unidentified"])
    if k in (14, 26):
        s.show("ffs 40", "int", 40)
    if k == 22:
        pass


def h_failing(s, f):
    """A structure some parts of which fail: parts give their value (or, once the whole has failed, the failure)."""
    r = s.r
    n = s.nid("fl")
    t = s.g.rtype(1)
    parts = []
    for _ in range(r.randint(2, 5)):
        if r.random() < .4:
            parts.append(('(error "boom_%s")' % n, None))
        else:
            _, x, v = s.value(t, 2)
            parts.append((x, v))
    tail = r.random() < .3
    if tail:
        _, x, v = s.value(("list", t), 2)
        s.add("let %st = %s;" % (n, x), ["quiet"])
        s.g.vars.append((n + "t", ("list", t)))
        s.env[n + "t"] = v
        s.add("let %s = %s:%st;" % (n, ":".join("(%s)" % p[0] for p in parts), n), ["quiet"])
        parts = parts + [("", y) for y in v]
    else:
        s.add("let %s = [%s];" % (n, ",".join(p[0] for p in parts)), ["quiet"])
    whole_bad = any(v is None for _, v in parts)

    def probe():
        k = r.randrange(5)
        if k == 0:
            if whole_bad:
                s.add("show_line (%s %s);" % (flgen.shower(("list", t)), n), ["err", "boom_" + n])
            else:
                s.show(n, ("list", t), [v for _, v in parts])
            return None
        i = r.randrange(len(parts))
        v = parts[i][1]
        x = "el %d %s" % (i + 1, n)
        if k < 3 or not isinstance(t, str):
            if v is None:
                s.add("show_line (%s (%s));" % (flgen.shower(t), x), ["err", "boom_" + n])
            elif whole_bad:
                s.add("show_line (%s (%s));" % (flgen.shower(t), x), ["valor", shown(t, v), "boom_" + n])
            else:
                s.show(x, t, v)
            return None
        _, dx, dv = s.value(t, 1)
        if v is None:
            s.show("(%s) catch (%s)" % (x, dx), t, dv)
        elif whole_bad:
            s.add("show_line (%s ((%s) catch (%s)));" % (flgen.shower(t), x, dx), ["anyof", [shown(t, v), shown(t, dv)]])
        else:
            s.show("(%s) catch (%s)" % (x, dx), t, v)
        return None
    return probe


def h_failfun(s, f):
    """A function that fails on some arguments, also memoised."""
    r = s.r
    n = s.nid("ff")
    kw = r.choice(["let", "clet", "clet"])
    badk = r.sample(range(8), r.randint(1, 3))
    t = s.g.rtype(1)
    _, x, v = s.value(t, 3)
    _, y, w = s.value(t, 2)
    s.add('%s %s q = mem q [%s] => error (sprintf "boom_%s_%%d" q) | q %% 2 = 0 => %s | %s;' % (kw, n, ",".join(map(str, badk)), n, x, y), ["quiet"])

    def probe():
        q = r.randrange(8)
        if q in badk:
            if r.random() < .5:
                _, dx, dv = s.value(t, 1)
                s.show("(%s %d) catch (%s)" % (n, q, dx), t, dv)
            else:
                s.add("show_line (%s (%s %d));" % (flgen.shower(t), n, q), ["err", "boom_%s_%d" % (n, q)])
        else:
            s.show("%s %d" % (n, q), t, v if q % 2 == 0 else w)
        return None
    return probe


def h_effects(s, f):
    """Assignments before the failure stay; those after it do not happen."""
    r = s.r
    n = s.nid("er")
    s.add("let %s = ref 0;" % n, ["quiet"])
    st = [0]

    def probe():
        k = r.randrange(3)
        a, b = r.randint(1, 99), r.randint(100, 199)
        if k == 0:
            s.add('(%s := %d) fseq (error "boomx") fseq (%s := %d);' % (n, a, n, b), ["err", "boomx"], keep=True)
            st[0] = a
        elif k == 1:
            s.add("((%s := %d) fseq (1/0) fseq (%s := %d) fseq 3) catch 4;" % (n, a, n, b), None, keep=True)
            st[0] = a
        else:
            s.add('let %sn = (%s := %d) fseq 1;' % (n, n, a), None, keep=True)     # lazy: nothing happens
        return "deref %s" % n, "int", st[0]
    return probe


def h_cond(s, f):
    """Assignments and failures under symbolic conditions: a branch assigns only
    where its condition holds, and a caught failure ends the branch."""
    r, FULL = s.r, flgen.FULL
    names = [s.nid("cr") for _ in range(r.choice([1, 1, 2]))]
    st = {}
    class Fail(Exception):
        pass

    def pure(d):
        # No conditionals in here: what they skip depends on the conditions around them.
        k = r.randrange(5)
        if d <= 0 or k == 0:
            i = r.randrange(len(VARS))
            return ('(variable "%s")' % VARS[i], VARTT[i]) if r.random() < .9 else r.choice([("T", FULL), ("F", 0)])
        (x, a), (y, b) = pure(d - 1), pure(d - 1)
        return [("(NOT %s)" % x, FULL & ~a), ("(%s AND %s)" % (x, y), a & b), ("(%s OR %s)" % (x, y), a | b),
                ("(%s XOR %s)" % (x, y), a ^ b)][k - 1]

    for n in names:
        x, v = pure(2)
        s.add("let %s = ref (%s);" % (n, x), ["quiet"], keep=True)
        st[n] = v

    def gen(d):
        k = r.randrange(12)
        if d <= 0 or k == 0:
            if r.random() < .3:
                n = r.choice(names)
                return "(deref %s)" % n, lambda c, q: q[n]
            if r.random() < .25:
                def bad(c, q):
                    raise Fail()
                return '(error "bcond")', bad
            x, v = pure(r.choice([0, 1, 1, 2]))
            return x, lambda c, q: v
        if k < 4:
            n = r.choice(names)
            (x, a), (y, b) = gen(0), gen(d - 1)
            if "error" in x:
                return y, b

            def assign(c, q):
                q[n] = (a(c, q) & c) | (q[n] & ~c)
                return b(c, q)
            return "((%s := %s) fseq %s)" % (n, x, y), assign
        if k < 9:
            if r.random() < .15:
                w, cv = gen(1)
            else:
                w, v = pure(r.choice([0, 1, 1, 2]))
                cv = lambda c, q: v
            (x, a), (y, b) = gen(d - 1), gen(d - 1)

            def ite(c, q):
                i = cv(c, q)
                if i in (0, FULL):
                    return a(c, q) if i else b(c, q)
                if not i & c:
                    return b(c & ~i, q)
                if not ~i & c:
                    return a(c & i, q)
                u = a(c & i, q)
                return (u & i) | (b(c & ~i, q) & ~i & FULL)
            return "(%s => %s | %s)" % (w, x, y), ite
        (x, a), (y, b) = gen(d - 1), gen(d - 1)

        def catch(c, q):
            try:
                return a(c, q)
            except Fail:
                return b(c, q)
        return ("(%s catch %s)" % (x, y) if r.random() < .6 else "(%s gen_catch (\\%s. %s))" % (x, s.nid("m"), y)), catch

    def probe():
        for _ in range(r.choice([1, 1, 2])):
            x, e = gen(r.choice([2, 3, 3, 4]))
            if len(x) > 1500:
                continue
            try:
                v = e(FULL, st)
                s.add("show_line (dumpb %s);" % x, shown("bool", flgen.Tt(v)), keep=True)
            except Fail:
                s.add("show_line (dumpb %s);" % x, ["err", "bcond"], keep=True)
        n = r.choice(names)
        return "deref %s" % n, "bool", flgen.Tt(st[n])
    return probe


def fail_session(r, **kw):
    s = session.Sess(r, **kw)
    arm = s.items.pop() if s.items[-1]["id"] == "arm" else None
    s.items.append({"id": "pref", "t": "\n".join(PRE), "exp": None, "keep": True})
    if r.random() < .7:
        s.items.append({"id": "preL", "t": 'update_vossrc "RECURSION-CALL-LIMIT" "%d";' % r.choice([1500, 3000]), "exp": None, "keep": True})
    if arm:
        s.items.append(arm)
    f = F(s)
    extra = [lambda: h_failing(s, f), lambda: h_failing(s, f), lambda: h_failfun(s, f), lambda: h_effects(s, f), lambda: h_cond(s, f)]
    pool = r.sample(sorted(set(session.HOLDERS) - {"h_deep"}), 4)
    for _ in range(r.randint(4, 8)):
        if r.random() < .5:
            s.probes.append(r.choice(extra)())
        else:
            s.probes.append(getattr(s, r.choice(pool))())
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = r.random()
            if k < .4:
                show_f(s, f)
            elif k < .8:
                failing_statement(s, f)
            else:
                s.noise()
        if r.random() < .4:
            p = r.choice(s.probes)()
            if p:
                s.show(*p)
    order = s.probes * 2
    r.shuffle(order)
    for p in order:
        q = p()
        if q:
            s.show(*q)
        if r.random() < .25:
            failing_statement(s, f)
    s.add("quit;", None, keep=True)
    return s
