"""Values written to disk by one process and read back by the same or another one:
write_<type>/read_<type>, bdd_save/bdd_load and bexpr_save/bexpr_load."""
import re
import flgen
from flgen import ty_text, shower, VARS, FlErr
import framework as fw
from framework import oracle, shown, strip_prompt
from session import Sess
from intr import lost_lines

NAMES = ["st%d" % i for i in range(4)]


class Kind:
    """A type with its writer and reader; a value is the list of what its leaves show."""

    def __init__(self, r, g, k):
        self.k, self.t = k, g.rtype(r.choice([0, 1, 1, 2]))
        t = ty_text(self.t)
        n = self.n = "ty%d" % k
        alts = ["L%d %s" % (k, t), "N%d %s %s" % (k, n, n), "E%d" % k, "F%d (int->%s)" % (k, t), "R%d (%s ref)" % (k, t), "P%d (string#%s)" % (k, n)]
        r.shuffle(alts)
        for i in range(r.choice([0, 0, 3, 12])):
            alts.append("Q%d_%d %s" % (k, i, r.choice(["int", n, "(bool list)"])))
        self.decl = "lettype %s = %s;" % (n, " | ".join(alts))
        self.fl = ("letrec fl%d (L%d i) = [i] /\\ fl%d (N%d a b) = (fl%d a) @ (fl%d b) /\\ fl%d (F%d f) = [f 0, f 1, f 7] /\\ "
                   "fl%d (R%d r) = [deref r] /\\ fl%d (P%d (s,a)) = fl%d a /\\ fl%d x = [];") % ((k,) * 14)
        # The same type with one more constructor is another type.
        self.decl2 = "lettype %s = %s | Z%d int;" % (n, " | ".join(alts), k)
        self.show = "show_line (sh_list %s (fl%d %%s));" % (shower(self.t), k)
        self.ty = ("list", self.t)

    def value(self, s, d=3):
        r, k = s.r, self.k
        c = r.random()
        if d == 0 or c < .35:
            _, x, v = s.value(self.t, 2)
            return "(L%d (%s))" % (k, x), [v]
        if c < .65:
            a, va = self.value(s, d - 1)
            b, vb = self.value(s, d - 1)
            return "(N%d %s %s)" % (k, a, b), va + vb
        if c < .72:
            # shared
            a, va = self.value(s, d - 1)
            n = s.g.fresh("w")
            return "(let %s = %s in N%d %s %s)" % (n, a, k, n, n), va + va
        if c < .78:
            return "E%d" % k, []
        if c < .88:
            x, f = s.fun("int", self.t, 1)
            try:
                return "(F%d %s)" % (k, x), [f(0), f(1), f(7)]
            except flgen.TooBig:
                return "E%d" % k, []
        if c < .93:
            _, x, v = s.value(self.t, 2)
            return "(R%d (ref (%s)))" % (k, x), [v]
        a, va = self.value(s, d - 1)
        return '(P%d ("%s",%s))' % (k, r.choice(["", "x", "a\\nb\\n12 z\\n", " 3 ", "longer text, with 100% of it"]), a), va

    put = property(lambda s: 'show_line ((write_%s "%%s" %%s) => "done" | "not done");' % s.n)
    get = property(lambda s: '(read_%s "%%s")' % s.n)


class Bdds:
    decl = fl = ""
    k, n, t, ty = "b", "bdds", "bool", ("list", "bool")
    show = "show_line (sh_list dumpb %s);"
    put = 'show_line ((bdd_save "%s" %s) => "done" | "not done");'
    get = '(bdd_load "%s")'

    def value(self, s):
        xs = [s.value("bool", s.r.choice([1, 2, 3, 3])) for _ in range(s.r.choice([0, 1, 1, 2, 3, 5]))]
        return "[%s]" % ",".join("(%s)" % x[1] for x in xs), [x[2] for x in xs]


class Bexprs(Bdds):
    k, n = "e", "bexprs"
    get = '(map (bexpr2bdd bsub) (bexpr_load "%s"))'
    put = '(bexpr_save "%s" (bool2bexpr %s)) fseq (show_line "done");'


def store_case(r, crash=False, intr=False):
    """-> (list of item lists, events)."""
    s0 = Sess(r)
    kinds = [Kind(r, s0.g, i) for i in range(2)]
    kinds += [Bdds(), Bexprs()]
    held = {}
    phases, ev = [], []
    for p in range(r.choice([2, 2, 3])):
        s = Sess(r, arm=False)
        s.k = 1000 * p
        var = set(k.n for k in kinds[:2] if r.random() < .2)
        nm = lambda k: k.n + "+" * (k.n in var)
        for k in kinds[:2]:
            s.add(k.decl2 if k.n in var else k.decl, ["quiet"], keep=True)
            s.add(k.fl, ["quiet"], keep=True)
        if p and r.random() < .5:
            vs = r.sample(VARS, len(VARS))
            s.add("show_line (dumpb (%s));" % " AND ".join('(variable "%s")' % v for v in vs), None, keep=True)
        s.add("#arm", None, keep=True)

        def put():
            k = r.choice(kinds) if r.random() < .5 else kinds[0]
            f = r.choice(NAMES)
            x, v = k.value(s)
            if len(x) > 5000 or len(repr(v)) > 5000:
                return
            how = r.random()
            if how < .3:
                n = s.nid("v")
                s.add("let %s = %s;" % (n, x), ["quiet"])
                if r.random() < .5:
                    s.add(k.show % ("(%s)" % n) if k in kinds[:2] else "show_line (sh_list dumpb %s);" % n, shown(k.ty, v))
                x = n
            i = s.add(k.put % (f, x))
            ev.append(["put", p, i, f, nm(k), fw.jv(v)])

        def get():
            k = r.choice(kinds) if r.random() < .4 else None
            f = r.choice(NAMES)
            if k is None:
                last = [e[4] for e in ev if e[0] == "put" and e[3] == f]
                k = next((x for x in kinds if last and x.n == last[-1].rstrip("+")), kinds[0])
            e = k.get % f
            i = s.add(k.show % e)
            ev.append(["get", p, i, f, nm(k), fw.jt(k.ty)])

        def unsavable():
            k = kinds[0]
            f = r.choice(NAMES)
            fp = 'let fp = fopen "unsav" "w" then '
            i = s.add('%sshow_line (((write_%s "%s" (P%d (stream2filename fp, E%d))) => "done" | "not done") gen_catch (\\m. (fclose fp) fseq "refused"));' % (fp, k.n, f, k.k, k.k))
            ev.append(["unsav", p, i, f])

        def garbage():
            s.add("show_line (int2str (strlen (implode (map int2str (1 upto %d)))));" % r.choice([10, 100]), None)
        for _ in range(r.randint(3, 12)):
            r.choice([put] * 5 + [get] * 5 + [unsavable] + [garbage])()
        s.add("#disarm", None, keep=True)
        for f in NAMES:
            last = [e[4] for e in ev if e[0] == "put" and e[3] == f]
            for kn in set(last[-1:]):
                k = next(x for x in kinds if x.n == kn.rstrip("+"))
                i = s.add(k.show % (k.get % f))
                ev.append(["get", p, i, f, nm(k), fw.jt(k.ty), "sure"])
        s.add("quit;", None, keep=True)
        phases.append(s.items)
    return phases, ev


@oracle
def stored(case, results):
    """Each file's possible contents, followed through the processes."""
    bad, files = [], {}        # name -> [[(kind, value)...], broken]
    lossy = case.get("lossy")
    for p, (ph, r) in enumerate(zip(case["phases"], results)):
        crashed = r.how == "crash"
        if not crashed and (r.how != "exit" or r.status != 0):
            return bad + [("end:%s:%d" % (r.how, r.code), "process %d ended with %s %d (status %d): %r" % (p, r.how, r.code, r.status, (r.err or "")[-300:]))]
        sec, err, ln = r.sections("out"), r.sections("err"), ph["line_of"]
        lost, last = lost_lines(r), max(sec)
        prev, gone, names = 0, set(), set()
        for it in ph["items"]:
            n = ln[it["id"]]
            if any(prev < x <= n for x in lost):
                gone.add(it["id"])
                m = re.match(r"let (\w+)", it["t"])
                if m:
                    names.add(m.group(1))
            elif names & set(re.findall(r"\w+", it["t"])):
                gone.add(it["id"])
                m = re.match(r"let (\w+)", it["t"])
                if m:
                    names.add(m.group(1))
            prev = n
            if it.get("exp") and it["id"] not in gone and n in sec and not (crashed and n >= last):
                m = fw.check_exp(it["exp"], sec[n], err.get(n, ""))
                if m:
                    bad.append(("item:" + it["id"], "%s: %s" % (it["t"][:300], m)))
        have = set(it["id"] for it in ph["items"])
        for e in case["events"]:
            if e[1] != p:
                continue
            k, _, i, f = e[:4]
            c = files.setdefault(f, [[], False])
            if i not in have:
                if k == "put":
                    c[0].append((e[4], fw.vj(e[5])))
                    c[1] = True
                continue
            n = ln[i]
            if n not in sec:
                if not crashed and not bad:
                    bad.append(("item:" + i, "statement never ran"))
                continue
            inflight = (crashed and n >= last) or i in gone
            o, er = strip_prompt(sec[n]).rstrip("\n"), err.get(n, "")
            failed = "Failure" in er or "Run-time error" in er
            if k == "put":
                new = (e[4], fw.vj(e[5]))
                if inflight:
                    c[0].append(new)
                    c[1] = True
                elif o == "done":
                    files[f] = [[new], False]
                elif failed and lossy:
                    c[0].append(new)
                    c[1] = True
                elif o == "not done" and lossy:
                    c[0].append(new)
                    c[1] = True
                else:
                    bad.append(("item:" + i, "writing %s: output %r, messages %r" % (f, o[:100], er[:300])))
            elif k == "get":
                if inflight:
                    continue
                ok = [v for kk, v in c[0] if kk == e[4]]
                other = [kk for kk, v in c[0] if kk != e[4]]
                if failed:
                    if not ok or c[1] or other or (lossy and len(e) < 7):
                        continue
                    bad.append(("item:" + i, "%s was written successfully but cannot be read: %r" % (f, er[:300])))
                    continue
                if any(flgen.check_shown(fw.tt(e[5]), v, sec[n]) is None for v in ok):
                    continue
                bad.append(("item:" + i, "%s (%s) holds %s; reading it gives %r, messages %r" %
                            (f, "written without error" if not c[1] else "a write failed or was cut off", " or ".join("%s %r" % (kk, v) for kk, v in c[0])[:400] or "nothing", o[:200], er[:200])))
    return bad
