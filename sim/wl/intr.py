"""Interrupts: at any point of any statement the user is asked, and continues, returns to
the top level, or leaves. A statement answered "return" is lost; nothing else may change."""
import re
import framework as fw
from framework import oracle, ORACLES

WORD = re.compile(r"[A-Za-z_][A-Za-z_0-9']*")
DEFS = re.compile(r"(?:^|;|\n|\bin\b)\s*(?:let|letrec|clet|cletrec|lettype|overload|forward_declare \{)\s*([A-Za-z_][A-Za-z_0-9']*)")


def defines(text):
    """Names a statement defines or assigns at the top level."""
    ns = set()
    for l in text.split("\n"):
        m = re.match(r"(?:let|letrec|clet|cletrec|letrec_nonlazy|overload|forward_declare \{)\s*([A-Za-z_][A-Za-z_0-9']*)", l)
        if m:
            ns.add(m.group(1))
            ns.update(re.findall(r"/\\ ([A-Za-z_][A-Za-z_0-9']*)", l)) if l.startswith(("letrec", "cletrec")) else None
        if l.startswith("lettype"):
            # the type and its constructors
            ns.update(x for x in re.findall(r"[A-Za-z_][A-Za-z_0-9']*", l) if x not in ("lettype", "list", "int", "string", "bool"))
        if l.startswith("val"):
            ns.update(WORD.findall(l.split("=")[0]))
        if l.startswith("end_abstype"):
            ns.update(WORD.findall(l))
        ns.update(re.findall(r"([A-Za-z_][A-Za-z_0-9']*) :=", l))
        m = re.match(r'load "|#load', l)
    return ns - {"val"}


def lost_lines(r):
    """Script lines whose statement was abandoned ("return to top level"), or had a call from the
    graphical front end refused."""
    lost, cur = set(), 0
    for m in re.finditer(r"^(?:CMD (\d+)\b|ANSWER intr_answer (\S)|(REJECTED) )", r.log, re.M):
        if m.group(1):
            cur = int(m.group(1))
        elif m.group(3) or m.group(2) in "rR":
            lost.add(cur)
    return lost


def intr_count(r):
    return sum(1 for f in r.fires if f[1] == "intr")


@oracle
def after_interrupts(case, results):
    """As expect_items (or the case's inner oracle), except that lost statements show nothing and
    what was never defined may be missing."""
    inner = case.get("inner", "expect_items")
    ph, r = case["phases"][-1], results[-1]
    lost = lost_lines(r)
    if r.how == "exit" and r.status != 0 and re.search(r"^ANSWER intr_answer [xX]", r.log, re.M):
        if r.code != 2:
            return [("exitcode", "left by interrupt: status %d instead of 2" % r.code)]
        # Everything printed before leaving must be right.
        last = [int(x) for x in re.findall(r"^CMD (\d+)\b", r.log, re.M)][-1]
        cut = []
        ln = ph["line_of"]
        for it in ph["items"]:
            if ln[it["id"]] < last:
                cut.append(it)
        c2 = dict(case)
        p2 = dict(ph)
        p2["items"], p2["any_status"] = cut, True
        c2["phases"] = case["phases"][:-1] + [p2]
        case, ph = c2, p2
    tainted, skip = set(), {}
    prev = 0
    for it in ph["items"]:
        n = ph["line_of"][it["id"]]
        was_lost = any(prev < x <= n for x in lost)
        prev = n
        words = set(WORD.findall(it["t"])) | set(it.get("uses", ()))
        if was_lost or words & tainted:
            skip[it["id"]] = was_lost
            tainted |= defines(it["t"]) | set(it.get("defs", ()))
    real = ph["items"]
    p2 = dict(ph)
    p2["items"] = []
    for it in real:
        if it["id"] in skip:
            it = dict(it)
            it["exp"] = None
            it["lost"] = True
        p2["items"].append(it)
    c2 = dict(case)
    c2["phases"] = case["phases"][:-1] + [p2]
    return ORACLES[inner](c2, results)
