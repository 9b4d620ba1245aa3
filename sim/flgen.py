"""Random typed fl programs with an independent Python model of their values.

A generated expression is a Node: its fl text, and a function from the Python
values of the free variables to the Python value. Types:
  'int' 'str' 'bool' (a boolean function over VARS, as a truth table)
  ('list', t) ('pair', a, b)
Nothing here looks at the implementation: expected values come from Python."""
import random
from functools import cmp_to_key

NV = 5
VARS = ["va", "vb", "vc", "vd", "ve"]
ROWS = 1 << NV
FULL = (1 << ROWS) - 1
VARTT = []
for _i in range(NV):
    _m = 0
    for _r in range(ROWS):
        if (_r >> _i) & 1:
            _m |= 1 << _r
    VARTT.append(_m)


class Tt:
    """A boolean function of VARS."""
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m & FULL

    def __eq__(self, o):
        return isinstance(o, Tt) and self.m == o.m

    def __hash__(self):
        return hash(self.m)


TT, FF = Tt(FULL), Tt(0)


def const(b):
    return TT if b else FF


class FlErr(Exception):
    pass


class Node:
    __slots__ = ("text", "ev", "size")

    def __init__(self, text, ev, size=1):
        self.text, self.size = text, size

        def limited(env):
            v = ev(env)
            # Forcing a list or a string this long runs into the recursion limit.
            if isinstance(v, (list, str)) and len(v) > 1200:
                raise TooBig()
            return v
        self.ev = limited


# ------------------------------------------------------------ output format
PRELUDE = [
    # Structural dump of a boolean function: variable name, high, low branch.
    'letrec dumpb f = f == T => "1" | f == F => "0" | val (v,(h,l)) = top_cofactor f in "(" ^ v ^ " " ^ (dumpb h) ^ " " ^ (dumpb l) ^ ")";',
    'let sh_int {i::int} = int2str i;',
    'let sh_str {s::string} = s;',
    'let sh_list sh l = letrec go [] = "" /\\ go (x:xs) = (sh x) ^ ";" ^ (go xs) in "[" ^ (go l) ^ "]";',
    'let sh_pair sa sb (a,b) = "<" ^ (sa a) ^ "|" ^ (sb b) ^ ">";',
    'let show_line s = fprintf stdout "%s\\n" s;',
    # Operands first: see the finding about path conditions in DESIGN.md.
    'let bite {c::bool} {t::bool} {e::bool} = c fseq t fseq e fseq (IF c THEN t ELSE e);',
]


def shower(t):
    if t == "int":
        return "sh_int"
    if t == "str":
        return "sh_str"
    if t == "bool":
        return "dumpb"
    if t[0] == "list":
        return "(sh_list %s)" % shower(t[1])
    return "(sh_pair %s %s)" % (shower(t[1]), shower(t[2]))


def parse_dump(s, i=0):
    """Dump text -> (truth table, next index, sane)."""
    if s[i] == "1":
        return FULL, i + 1
    if s[i] == "0":
        return 0, i + 1
    assert s[i] == "("
    j = s.index(" ", i)
    v = VARS.index(s[i + 1:j])
    h, k = parse_dump(s, j + 1)
    assert s[k] == " "
    l, k = parse_dump(s, k + 1)
    assert s[k] == ")"
    if h == l:
        raise ValueError("redundant node in " + s)
    return (VARTT[v] & h) | (~VARTT[v] & l & FULL), k + 1


def match_value(t, v, s, i=0):
    """Does text s at i show value v of type t? Returns the next index or raises ValueError."""
    if t == "int":
        e = str(v)
        if not s.startswith(e, i) or (i + len(e) < len(s) and s[i + len(e)].isdigit()):
            raise ValueError("int %s" % e)
        return i + len(e)
    if t == "str":
        if not s.startswith(v, i):
            raise ValueError("string %r" % v)
        return i + len(v)
    if t == "bool":
        try:
            m, k = parse_dump(s, i)
        except (AssertionError, IndexError, ValueError) as ex:
            raise ValueError("bool dump: %s" % ex)
        if m != v.m:
            raise ValueError("bool %x instead of %x" % (m, v.m))
        return k
    if t[0] == "list":
        if not s.startswith("[", i):
            raise ValueError("list start")
        i += 1
        for x in v:
            i = match_value(t[1], x, s, i)
            if not s.startswith(";", i):
                raise ValueError("list separator")
            i += 1
        if not s.startswith("]", i):
            raise ValueError("list end")
        return i + 1
    if not s.startswith("<", i):
        raise ValueError("pair start")
    i = match_value(t[1], v[0], s, i + 1)
    if not s.startswith("|", i):
        raise ValueError("pair middle")
    i = match_value(t[2], v[1], s, i + 1)
    if not s.startswith(">", i):
        raise ValueError("pair end")
    return i + 1


def check_shown(t, v, text):
    """None if text is exactly v shown, else what is wrong."""
    if text.endswith(": "):          # the prompt for the next line
        text = text[:-2]
    text = text.rstrip("\n")
    if isinstance(v, str):
        v = v.rstrip("\n")
    try:
        k = match_value(t, v, text)
    except (ValueError, IndexError) as e:
        return "expected %s" % e
    if k != len(text):
        return "trailing output"
    return None


def fl_str(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def ty_text(t):
    if t == "int":
        return "int"
    if t == "str":
        return "string"
    if t == "bool":
        return "bool"
    if t[0] == "list":
        return "(%s list)" % ty_text(t[1])
    return "(%s # %s)" % (ty_text(t[1]), ty_text(t[2]))


CHARS = "abcdexyz0189_,. "
LI, LS, LB = ("list", "int"), ("list", "str"), ("list", "bool")
PIS = ("pair", "int", "str")


def trunc_div(a, b):
    return a // b


def uniq(l):
    o = []
    for x in l:
        if x not in o:
            o.append(x)
    return o


def bitlim(x):
    if isinstance(x, int) and abs(x).bit_length() > 400:
        raise TooBig()
    return x


class TooBig(Exception):
    pass


class Gen:
    def __init__(self, rng, use_bool=True, use_memo=True, maxlist=8):
        self.r = rng
        self.use_bool = use_bool
        self.vars = []          # (name, type): values available
        self.n = 0
        self.maxlist = maxlist
        self.defs = []          # helper definitions needed (text)

    def fresh(self, p="x"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def rtype(self, depth=2):
        r = self.r.random()
        if depth <= 0 or r < 0.55:
            c = ["int", "str", "int"] + (["bool", "bool"] if self.use_bool else [])
            return self.r.choice(c)
        if r < 0.85:
            return ("list", self.rtype(depth - 1))
        return ("pair", self.rtype(depth - 1), self.rtype(depth - 1))

    # -- expression generation -------------------------------------------
    def expr(self, t, d, env=()):
        """env: tuple of (name, type) of local variables."""
        r = self.r
        cands = [x for x in list(env) + self.vars if x[1] == t]
        if cands and (d <= 0 or r.random() < 0.18):
            # locals first
            loc = [x for x in env if x[1] == t]
            n, _ = r.choice(loc) if loc and r.random() < 0.7 else r.choice(cands)
            return Node(n, lambda e, n=n: e[n])
        if d <= 0:
            return self.leaf(t)
        for _ in range(6):
            x = self.compound(t, d, env)
            if x is not None:
                return x
        return self.leaf(t)

    def leaf(self, t):
        r = self.r
        if t == "int":
            v = r.choice([0, 1, 2, 3, r.randint(-9, 30), r.randint(-100, 1000), r.randint(-10**20, 10**20) if r.random() < .3 else 7])
            return Node("(%d)" % v if v < 0 else str(v), lambda e: v)
        if t == "str":
            s = "".join(r.choice(CHARS) for _ in range(r.choice([0, 1, 2, 3, 5, 9])))
            return Node(fl_str(s), lambda e: s)
        if t == "bool":
            k = r.random()
            if k < .06:
                return Node("T", lambda e: TT)
            if k < .12:
                return Node("F", lambda e: FF)
            i = r.randrange(NV)
            return Node('(variable "%s")' % VARS[i], lambda e: Tt(VARTT[i]))
        if t[0] == "list":
            n = r.choice([0, 1, 2, 3])
            xs = [self.leaf(t[1]) for _ in range(n)]
            if not xs:
                return Node("({[]::%s})" % ty_text(t), lambda e: [])
            return Node("[%s]" % ",".join(x.text for x in xs), lambda e: [x.ev(e) for x in xs])
        a, b = self.leaf(t[1]), self.leaf(t[2])
        return Node("(%s,%s)" % (a.text, b.text), lambda e: (a.ev(e), b.ev(e)))

    def cond(self, d, env):
        """A boolean expression that is always a constant."""
        r = self.r
        k = r.randrange(9)
        if k < 4:
            op, f = r.choice([("<", lambda a, b: a < b), ("<=", lambda a, b: a <= b), (">", lambda a, b: a > b),
                              (">=", lambda a, b: a >= b), ("=", lambda a, b: a == b), ("!=", lambda a, b: a != b)])
            a, b = self.expr("int", d - 1, env), self.expr("int", d - 1, env)
            return Node("(%s %s %s)" % (a.text, op, b.text), lambda e: f(a.ev(e), b.ev(e)))
        if k == 4:
            a, b = self.expr("str", d - 1, env), self.expr("str", d - 1, env)
            n, f = r.choice([("str_is_prefix", lambda x, y: y.startswith(x)), ("str_is_suffix", lambda x, y: y.endswith(x)),
                             ("str_is_substr", lambda x, y: x in y)])
            return Node("(%s %s %s)" % (n, a.text, b.text), lambda e: f(a.ev(e), b.ev(e)))
        if k == 5:
            t = self.rtype(1)
            l = self.expr(("list", t), d - 1, env)
            return Node("(empty %s)" % l.text, lambda e: l.ev(e) == [])
        if k == 6:
            l, x = self.expr(LI, d - 1, env), self.expr("int", d - 1, env)
            return Node("(mem %s %s)" % (x.text, l.text), lambda e: x.ev(e) in l.ev(e))
        if k == 7:
            if not self.use_bool:
                return Node("T", lambda e: True)
            a, b = self.expr("bool", d - 1, env), self.expr("bool", d - 1, env)
            return Node("(%s == %s)" % (a.text, b.text), lambda e: a.ev(e).m == b.ev(e).m)
        a, b = self.cond(d - 1, env) if d > 0 else Node("T", lambda e: True), self.cond(d - 1, env) if d > 0 else Node("F", lambda e: False)
        n, f = r.choice([("AND", lambda x, y: x and y), ("OR", lambda x, y: x or y), ("XOR", lambda x, y: x != y)])
        return Node("(%s %s %s)" % (a.text, n, b.text), lambda e: (lambda p, q: f(p, q))(a.ev(e), b.ev(e)))

    def lam(self, targs, tret, d, env):
        names = [self.fresh("p") for _ in targs]
        body = self.expr(tret, d, tuple(env) + tuple(zip(names, targs)))
        text = "(" + "".join("\\%s. " % n for n in names) + body.text + ")"

        def mk(e):
            def f(*a):
                e2 = dict(e)
                e2.update(zip(names, a))
                return body.ev(e2)
            return f
        return text, mk

    def compound(self, t, d, env):
        r = self.r
        k = r.random()
        E = lambda tt: self.expr(tt, d - 1, env)
        # generic forms for every type
        if k < .10:
            c, a, b = self.cond(min(d - 1, 2), env), E(t), E(t)
            return Node("(%s => %s | %s)" % (c.text, a.text, b.text), lambda e: a.ev(e) if c.ev(e) else b.ev(e))
        if k < .16:
            n, t2 = self.fresh("l"), self.rtype(1)
            a = E(t2)
            b = self.expr(t, d - 1, tuple(env) + ((n, t2),))
            kw = r.choice(["in", "in", "then"])
            return Node("(let %s = %s %s %s)" % (n, a.text, kw, b.text), lambda e: b.ev({**e, n: a.ev(e)}))
        if k < .20:
            t2 = self.rtype(1)
            tx, mk = self.lam([t2], t, d - 1, env)
            a = E(t2)
            return Node("(%s %s)" % (tx, a.text), lambda e: mk(e)(a.ev(e)))
        if k < .24:
            t2 = self.rtype(1)
            p = self.expr(("pair", t, t2), d - 1, env) if r.random() < .5 else None
            if p:
                return Node("(fst %s)" % p.text, lambda e: p.ev(e)[0])
            p = self.expr(("pair", t2, t), d - 1, env)
            return Node("(snd %s)" % p.text, lambda e: p.ev(e)[1])
        if k < .27:
            b = E(t)
            err = r.choice(['(error "boom")', '(hd {[]::%s})' % ty_text(("list", t)), '(el 7 {[]::%s})' % ty_text(("list", t)),
                            '(last {[]::%s})' % ty_text(("list", t))])
            return Node("(%s catch %s)" % (err, b.text), lambda e: b.ev(e))
        if k < .29:
            a, b = E(t), E(t)
            return Node("(%s catch %s)" % (a.text, b.text), lambda e: a.ev(e))
        if k < .32:
            t2 = self.rtype(1)
            a, b = E(t2), E(t)
            op = r.choice(["seq", "fseq"])

            def ev(e):
                a.ev(e)
                return b.ev(e)
            return Node("(%s %s %s)" % (a.text, op, b.text), ev)
        if k < .37:
            l = self.expr(("list", t), d - 1, env)
            x = E(t)
            i = r.randint(1, 4)
            form = r.randrange(3)
            if form == 0:
                return Node("((hd %s) catch %s)" % (l.text, x.text), lambda e: (l.ev(e) or [None])[0] if l.ev(e) else x.ev(e))
            if form == 1:
                return Node("((last %s) catch %s)" % (l.text, x.text), lambda e: l.ev(e)[-1] if l.ev(e) else x.ev(e))
            return Node("((el %d %s) catch %s)" % (i, l.text, x.text), lambda e: l.ev(e)[i - 1] if len(l.ev(e)) >= i else x.ev(e))
        if k < .42:
            # recursion
            f, n, acc = self.fresh("rf"), self.fresh("n"), self.fresh("acc")
            base, lim = E(t), r.randint(1, 6)
            body = self.expr(t, max(d - 2, 1), tuple(env) + ((acc, t), (n, "int")))
            kw = "letrec"

            def ev(e):
                v = base.ev(e)
                for i in range(1, lim + 1):
                    v = body.ev({**e, acc: v, n: i})
                return v
            return Node("(%s %s %s = (%s <= 0) => %s | (let %s = (%s (%s-1)) in %s) in (%s %d))" %
                        (kw, f, n, n, base.text, acc, f, n, body.text, f, lim), ev)
        if k < .46:
            t2 = self.rtype(1)
            l = E(("list", t2))
            tx, mk = self.lam([t2, t], t, max(d - 2, 1), env)
            b = E(t)

            def evi(e):
                f, v = mk(e), b.ev(e)
                for x in reversed(l.ev(e)):
                    v = f(x, v)
                return v

            def evr(e):
                f, v = mk(e), b.ev(e)
                for x in l.ev(e):
                    v = f(x, v)
                return v
            if r.random() < .5:
                return Node("(itlist %s %s %s)" % (tx, l.text, b.text), evi)
            nm = r.choice(["rev_itlist", "sitlist"])
            return Node("(%s %s %s %s)" % (nm, tx, l.text, b.text), evr if nm == "rev_itlist" else evi if SITLIST_RIGHT else evr)
        # type-specific
        if t == "int":
            return self.c_int(d, env, E)
        if t == "str":
            return self.c_str(d, env, E)
        if t == "bool":
            return self.c_bool(d, env, E)
        if t[0] == "list":
            return self.c_list(t, d, env, E)
        a, b = E(t[1]), E(t[2])
        return Node("(%s,%s)" % (a.text, b.text), lambda e: (a.ev(e), b.ev(e)))

    def c_int(self, d, env, E):
        r = self.r
        k = r.randrange(16)
        if k < 5:
            a, b = E("int"), E("int")
            op, f = r.choice([("+", lambda x, y: x + y), ("-", lambda x, y: x - y), ("*", lambda x, y: x * y)])
            return Node("(%s %s %s)" % (a.text, op, b.text), lambda e: bitlim(f(a.ev(e), b.ev(e))))
        if k == 5:
            a, m = E("int"), r.choice([2, 3, 7, 10, 1000, 2**35 + 1])
            op, f = r.choice([("/", lambda x: x // m), ("%", lambda x: x % m)])
            return Node("(%s %s %d)" % (a.text, op, m), lambda e: f(a.ev(e)))
        if k == 6:
            a, b = E("int"), E("int")
            op, f = r.choice([("min", min), ("max", max)])
            return Node("(%s %s %s)" % (op, a.text, b.text), lambda e: f(a.ev(e), b.ev(e)))
        if k == 7:
            a = E("str")
            return Node("(strlen %s)" % a.text, lambda e: len(a.ev(e)))
        if k == 8:
            t2 = self.rtype(1)
            l = E(("list", t2))
            return Node("(length %s)" % l.text, lambda e: len(l.ev(e)))
        if k == 9:
            l = E(LI)
            return Node("(itlist (\\q1.\\q2. q1 + q2) %s 0)" % l.text, lambda e: sum(l.ev(e)))
        if k == 10:
            a = E("int")
            return Node("(s2int (int2str %s))" % a.text, lambda e: a.ev(e))
        if k == 11:
            l = E(LI)
            x = r.randint(0, 5)
            return Node("(find_first0 (\\q. q > %d) %s)" % (x, l.text), lambda e: next((i + 1 for i, y in enumerate(l.ev(e)) if y > x), 0))
        if k == 12:
            a, b = E("str"), E("str")
            return Node("(strcmp %s %s > 0 => 1 | 0)" % (a.text, b.text), lambda e: 1 if a.ev(e) > b.ev(e) else 0)
        if k == 13:
            n = r.randint(0, 9)
            a = E("int")
            return Node("((%s %% 50) ** %d)" % (a.text, n), lambda e: bitlim((a.ev(e) % 50) ** n))
        if k == 14:
            a, b = E("int"), E("int")
            return Node("(gcd (1 + (iabs %s)) (1 + (iabs %s)))" % (a.text, b.text), lambda e: __import__("math").gcd(1 + abs(a.ev(e)), 1 + abs(b.ev(e))))
        l = E(LS)
        return Node("(length (flat (map explode %s)))" % l.text, lambda e: sum(len(x) for x in l.ev(e)))

    def c_str(self, d, env, E):
        r = self.r
        k = r.randrange(12)
        if k < 3:
            a, b = E("str"), E("str")
            return Node("(%s ^ %s)" % (a.text, b.text), lambda e: (a.ev(e) + b.ev(e))[:10**6])
        if k == 3:
            a = E("int")
            return Node("(int2str %s)" % a.text, lambda e: str(a.ev(e)))
        if k == 4:
            a, n = E("str"), r.randint(1, 4)
            nm, f = r.choice([("string_lastn", lambda s: s[-n:]), ("string_butlastn", lambda s: s[:-n])])
            s2 = fl_str("0123")
            return Node("(%s (%s ^ %s) %d)" % (nm, a.text, s2, n), lambda e: f(a.ev(e) + "0123"))
        if k == 5:
            l = E(LS)
            return Node("(implode %s)" % l.text, lambda e: "".join(l.ev(e)))
        if k == 6:
            a, b = E("str"), E("int")
            return Node('(sprintf "%%s-%%d" %s (%s %% 100000))' % (a.text, b.text), lambda e: "%s-%d" % (a.ev(e), b.ev(e) % 100000))
        if k == 7:
            a = E("str")
            return Node("(implode (rev (explode %s)))" % a.text, lambda e: a.ev(e)[::-1])
        if k == 8:
            a, i, n = E("str"), r.randint(0, 2), r.randint(1, 3)
            return Node('(substr (%s ^ "abcdef") %d %d)' % (a.text, i + 1, n), lambda e: (a.ev(e) + "abcdef")[i:i + n])
        if k == 9:
            a = E("int")
            return Node("(chr (65 + (%s %% 26)))" % a.text, lambda e: chr(65 + a.ev(e) % 26))
        if k == 10:
            a, n = E("int"), r.choice([4, 8, 12])
            return Node('(sprintf "%%0%dx" (%s %% 60000))' % (n, a.text), lambda e: "%0*x" % (n, a.ev(e) % 60000))
        l = E(LI)
        return Node('(list2str T "{" "," "}" int2str %s)' % l.text, lambda e: "{" + ",".join(map(str, l.ev(e))) + "}")

    def c_bool(self, d, env, E):
        r = self.r
        k = r.randrange(17)
        if k < 7:
            a, b = E("bool"), E("bool")
            op, f = r.choice([("AND", lambda x, y: x & y), ("OR", lambda x, y: x | y), ("XOR", lambda x, y: x ^ y), ("XNOR", lambda x, y: ~(x ^ y))])
            return Node("(%s %s %s)" % (a.text, op, b.text), lambda e: Tt(f(a.ev(e).m, b.ev(e).m)))
        if k == 7:
            a = E("bool")
            return Node("(NOT %s)" % a.text, lambda e: Tt(~a.ev(e).m))
        if k == 8:
            c, a, b = E("bool"), E("bool"), E("bool")
            return Node("(bite %s %s %s)" % (c.text, a.text, b.text),
                        lambda e: (lambda x, y, z: Tt((x & y) | (~x & z)))(c.ev(e).m, a.ev(e).m, b.ev(e).m))
        if k in (9, 10):
            a = E("bool")
            vs = r.sample(range(NV), r.randint(1, 3))
            fa = k == 9
            nm = "Quant_forall" if fa else "Quant_thereis"

            def ev(e):
                m = a.ev(e).m
                for v in vs:
                    m = quant(m, v, fa)
                return Tt(m)
            return Node("(%s [%s] %s)" % (nm, ",".join('"%s"' % VARS[v] for v in vs), a.text), ev)
        if k == 11:
            a, b = E("bool"), E("bool")
            v = r.randrange(NV)
            return Node('(substitute [("%s", %s)] %s)' % (VARS[v], b.text, a.text), lambda e: Tt(subst(a.ev(e).m, {v: b.ev(e).m})))
        if k == 12:
            a, b, c = E("bool"), E("bool"), E("bool")
            v, w = r.sample(range(NV), 2)
            return Node('(substitute [("%s", %s),("%s", %s)] %s)' % (VARS[v], b.text, VARS[w], c.text, a.text),
                        lambda e: Tt(subst(a.ev(e).m, {v: b.ev(e).m, w: c.ev(e).m})))
        if k == 13:
            a, b = E("bool"), E("bool")
            vs = r.sample(range(NV), r.randint(1, 3))
            fa = r.random() < .5

            def ev(e):
                m = a.ev(e).m & b.ev(e).m
                for v in vs:
                    m = quant(m, v, fa)
                return Tt(m)
            return Node("(%s (%s) %s %s)" % ("relprod_forall" if fa else "relprod_thereis", " AND ".join('variable "%s"' % VARS[v] for v in vs), a.text, b.text), ev)
        if k == 14:
            l = E(LB)
            nm = r.choice(["AND_list", "OR_list"])

            def ev(e):
                xs = l.ev(e)
                m = FULL if nm == "AND_list" else 0
                for x in xs:
                    m = m & x.m if nm == "AND_list" else m | x.m
                return Tt(m)
            return Node("(%s %s)" % (nm, l.text), ev)
        if k == 15:
            a, b = E("bool"), E("bool")
            return Node("(%s = %s)" % (a.text, b.text), lambda e: Tt(~(a.ev(e).m ^ b.ev(e).m)))
        c = self.cond(min(d - 1, 2), env)
        return Node(c.text, lambda e: const(c.ev(e)))

    def c_list(self, t, d, env, E):
        r = self.r
        et = t[1]
        k = r.randrange(20)
        if k < 3:
            xs = [E(et) for _ in range(r.randint(1, 4))]
            return Node("[%s]" % ",".join(x.text for x in xs), lambda e: [x.ev(e) for x in xs])
        if k == 3:
            a, l = E(et), E(t)
            return Node("(%s:%s)" % (a.text, l.text), lambda e: [a.ev(e)] + l.ev(e))
        if k == 4:
            a, b = E(t), E(t)
            return Node("(%s @ %s)" % (a.text, b.text), lambda e: (a.ev(e) + b.ev(e))[:4000])
        if k in (5, 6):
            t2 = self.rtype(1)
            l = E(("list", t2))
            tx, mk = self.lam([t2], et, max(d - 2, 1), env)
            return Node("(map %s %s)" % (tx, l.text), lambda e: [mk(e)(x) for x in l.ev(e)])
        if k == 7:
            l = E(t)
            n = self.fresh("p")
            c = self.cond(min(d - 1, 2), tuple(env) + ((n, et),))
            nm, neg = r.choice([("filter", False), ("fst (split", None), ("snd (split", True)])
            if nm == "filter":
                return Node("(filter (\\%s. %s) %s)" % (n, c.text, l.text), lambda e: [x for x in l.ev(e) if c.ev({**e, n: x})])
            if neg:
                return Node("(snd (split (\\%s. %s) %s))" % (n, c.text, l.text), lambda e: [x for x in l.ev(e) if not c.ev({**e, n: x})])
            return Node("(fst (split (\\%s. %s) %s))" % (n, c.text, l.text), lambda e: [x for x in l.ev(e) if c.ev({**e, n: x})])
        if k == 8:
            l = E(t)
            return Node("(rev %s)" % l.text, lambda e: l.ev(e)[::-1])
        if k == 9:
            l, i = E(t), r.randint(0, 4)
            nm, f = r.choice([("firstn", lambda x: x[:i]), ("butfirstn", lambda x: x[i:]), ("lastn", lambda x: x[-i:] if i else []), ("butlastn", lambda x: x[:-i] if i else x)])
            return Node("(let ql = %s in (length ql) >= %d => (%s %d ql) | ql)" % (l.text, i, nm, i), lambda e: f(l.ev(e)) if len(l.ev(e)) >= i else l.ev(e))
        if k == 10 and et in ("int", "str"):
            a = E(t)
            return Node("(setify %s)" % a.text, lambda e: uniq(a.ev(e)))
        if k == 11 and et in ("int", "str"):
            a, b = E(t), E(t)
            nm, f = r.choice([("subtract", lambda x, y: [z for z in x if z not in y]), ("intersect", lambda x, y: [z for z in x if z in y])])
            if nm == "subtract":
                return Node("((setify %s) subtract %s)" % (a.text, b.text), lambda e: f(uniq(a.ev(e)), b.ev(e)))
            return Node("((setify %s) intersect (setify %s))" % (a.text, b.text), lambda e: f(uniq(a.ev(e)), b.ev(e)))
        if k == 12 and et == "int":
            a = E(t)
            return Node("(qsort (\\q1.\\q2. q1 - q2) (map (\\q. q %% 1000000) %s))" % a.text, lambda e: sorted(x % 1000000 for x in a.ev(e)))
        if k == 13 and et == "int":
            a = E("int")
            n = r.randint(0, 9)
            return Node("(let ql = (%s %% 1000) in ql upto (ql + %d))" % (a.text, n), lambda e: list(range(a.ev(e) % 1000, a.ev(e) % 1000 + n + 1)))
        if k == 14 and et == "str":
            a = E("str")
            if r.random() < .5:
                return Node("(explode %s)" % a.text, lambda e: list(a.ev(e)))
            return Node('(str_split (%s ^ ",q") ",")' % a.text, lambda e: (a.ev(e) + ",q").split(","))
        if k == 15 and et[0] == "pair":
            a, b = E(("list", et[1])), E(("list", et[2]))
            q1, q2 = self.fresh("q"), self.fresh("q")
            return Node("(let %s = %s in let %s = %s in (length %s) = (length %s) => (zip %s %s) | {[]::%s})" % (q1, a.text, q2, b.text, q1, q2, q1, q2, ty_text(t)),
                        lambda e: list(zip(a.ev(e), b.ev(e))) if len(a.ev(e)) == len(b.ev(e)) else [])
        if k == 16:
            ll = E(("list", t))
            return Node("(flat %s)" % ll.text, lambda e: [x for l in ll.ev(e) for x in l])
        if k == 17:
            n, x = r.randint(0, 5), E(et)
            return Node("(replicate %d %s)" % (n, x.text), lambda e: [x.ev(e)] * n)
        if k == 18:
            t2 = self.rtype(0)
            l, l2 = E(("list", t2)), E(t)
            tx, mk = self.lam([t2, et], et, max(d - 2, 1), env)
            q1, q2 = self.fresh("q"), self.fresh("q")
            return Node("(let %s = %s in let %s = %s in (length %s) = (length %s) => (map2 %s %s %s) | %s)" % (q1, l.text, q2, l2.text, q1, q2, tx, q1, q2, q2),
                        lambda e: [mk(e)(x, y) for x, y in zip(l.ev(e), l2.ev(e))] if len(l.ev(e)) == len(l2.ev(e)) else l2.ev(e))
        if k == 19:
            l = E(t)
            x = E(et)
            return Node("(tl %s catch [%s])" % (l.text, x.text), lambda e: l.ev(e)[1:] if l.ev(e) else [x.ev(e)])
        return None


SITLIST_RIGHT = True


def quant(m, v, forall):
    s = 1 << v
    hi = m & VARTT[v]
    lo = m & ~VARTT[v] & FULL
    h = hi | (hi >> s)
    l = lo | ((lo << s) & FULL)
    return (h & l) if forall else (h | l)


def subst(m, sub):
    out = 0
    for r in range(ROWS):
        q = r
        for v, f in sub.items():
            q = (q & ~(1 << v)) | (((f >> r) & 1) << v)
        if (m >> q) & 1:
            out |= 1 << r
    return out
