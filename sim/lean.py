"""A small start-up file: the definitions of preamble.fl and builtins.fl that the
workloads use, with everything those depend on, taken from the current tree. With
it a garbage collection costs about 1/50 of what it costs under the full preamble,
so the same time explores far more collections. The full preamble is used too."""
import re

SEEDS = """map map2 zip itlist rev_itlist sitlist hd tl fst snd el last butlast length rev filter split flat
 replicate qsort setify intersect subtract union mem empty find_first0 find assoc explode implode sprintf fprintf eprintf printf
 int2str s2int strlen strcmp str_is_prefix str_is_suffix str_is_substr str_split string_lastn string_butlastn substr chr ord
 list2str min max gcd iabs firstn butfirstn lastn butlastn upto IF THEN ELSE Quant_forall Quant_thereis substitute
 relprod_forall relprod_thereis AND_list OR_list variable T F NOT AND OR XOR XNOR top_cofactor depends error catch gen_catch
 seq fseq quit ref deref := tbl_create tbl_insert tbl_get tbl_member tbl_delete tbl2list tbl2keys table_size clean_clets
 stdout stderr fopen fclose fflush fgets fget feof gc force eval sha256_signature bdd_size bdd_reorder
 bvariable bAND bOR bNOT bXOR bool2bexpr bexpr2bdd foldr1 foldr foldl1 forall exists range + - * / % ** < <= > >= == = != ^ @ : # $
 file_exists load system exec sleep spawn kill mem assoc partition gather separate gcmp all_combs cross_prod
 var_order fixed_var_order get_var_order append foreach find_all str_match trim words srandom 
 bT bF bITE bdepends bsubstitute bget_model bsize bexpr_is_unsat bXNOR bexpr2str save_graph load_graph bdd_save bdd_load
 cload get_cloaded_files file_fullname string2list str2int bv_eq bv_add bv_sub bv_mul int2bv bv2int list2bv unary_minus
 get_process_exit_status system2 mktempd time etime wtime file_modified_time non_gui_exec para_eval has_value get_value pid
 W_VAR W_IDELAY MEM base_PINST P_LEAF W_UPDATE_FN
""".split()

TOK = re.compile(r'"(?:\\.|[^"\\])*"|//[^\n]*|/\*.*?\*/|[A-Za-z_][A-Za-z_0-9\']*!?|[0-9]+|[-+*/%<>=!^@:#$&|~?.\\]+|[()\[\]{},;]|\s+|.', re.S)
# Names that also serve as local variables; not followed.
BLOCK = set("status info update_fn gui_exec window main_menu prim_fns Pterm DBGterm wexpr".split())
DEF = ("let", "letrec", "clet", "cletrec", "letrec_nonlazy", "val", "let_nonlazy", "lettype", "andlettype", "abstype", "new_type_abbrev", "typedef")


def statements(text):
    out, cur = [], []
    for m in TOK.finditer(text):
        t = m.group(0)
        if t.startswith("//") or t.startswith("/*"):
            cur.append("\n")
            continue
        cur.append(t)
        if t == ";":
            out.append(cur)
            cur = []
    return out


def words(st):
    return [t for t in st if not t.isspace() and t[0] != '"']


def defines(ws):
    if not ws:
        return set()
    k = ws[0]
    if k in ("lettype", "andlettype"):
        names = {ws[1]} | set(w for w in ws[2:] if re.match(r"[A-Za-z_]", w))
        i = ws.index("=") if "=" in ws else len(ws)
        # name, then constructors: the first word of every alternative
        d = set(w for w in ws[1:i] if re.match(r"[A-Za-z_]", w))
        nxt = True
        for w in ws[i:]:
            if nxt and re.match(r"[A-Za-z_:]", w):
                d.add(w)
                nxt = False
            if w in ("|", "="):
                nxt = True
        return d & names
    if k in DEF:
        d = set()
        rest = ws[1:]
        for stop in range(len(rest)):
            if rest[stop] in ("=",):
                break
        head = rest[:stop]
        if k == "val" or (head and head[0] == "("):
            return set(w for w in head if w not in "(),:[]")
        head2 = [w for w in head if w not in ("{", "}", "(", ")")]
        if head2:
            d.add(head2[0])
            # infix definition "let a op b"
            if len(head2) == 3 and head2[0].startswith("{"):
                d.add(head2[1])
        # clauses: /\ name
        for i, w in enumerate(ws[:-1]):
            if w == "/\\":
                d.add(ws[i + 1])
        return d
    if k in ("overload", "open_overload"):
        return {w for w in ws[1:3] if w not in "{}::"}
    if k == "forward_declare":
        return {w for w in ws[1:3] if w not in "{}::"}
    return set()


MODS = ("infix", "infixr", "infixl", "non_lazy", "free_binder", "binder", "if_then_else_binder", "infix_unary", "postfix", "export", "eval",
        "infixr_nonlazy", "prefix", "nonfix", "infix_nonlazy")


def lean(fldir, extra=()):
    sts = []
    for f in ("builtins.fl", "preamble.fl"):
        sts += statements(open(fldir + "/" + f, encoding="latin-1").read())
    # abstype blocks and other compound statements stay together
    info = []
    i = 0
    while i < len(sts):
        ws = words(sts[i])
        text = "".join(sts[i])
        d = defines(ws)
        if "begin_abstype" in ws:
            j = i
            d = set()
            allw = []
            text = ""
            while j < len(sts):
                w = words(sts[j])
                text += "".join(sts[j])
                w2 = [x for x in w if x != "begin_abstype"]
                d |= defines(w2)
                allw += w
                if "end_abstype" in w:
                    d |= set(w)
                    break
                j += 1
            info.append((text, d - {";", "end_abstype"}, allw, "def"))
            i = j + 1
            continue
        kind = "def" if d else "mod" if ws and (ws[0] in MODS or ws[0].startswith("infix")) else "ovl" if ws and ws[0] == "add_open_overload" else "cmd"
        info.append((text, d, ws, kind))
        i += 1
    by = {}
    for n, (text, d, ws, kind) in enumerate(info):
        for x in d:
            by.setdefault(x, []).append(n)
    need, todo = set(), list(SEEDS) + list(extra)
    seen = set()
    while todo:
        x = todo.pop()
        if x in seen or x in BLOCK:
            continue
        seen.add(x)
        for n in by.get(x, []):
            if n not in need:
                need.add(n)
                todo += info[n][2]
        for n, (text, d, ws, kind) in enumerate(info):
            if kind == "mod" and n not in need and x in ws[1:]:
                need.add(n)
                todo += ws[1:]
            if kind == "ovl" and n not in need and len(ws) > 2 and ws[1] == x:
                need.add(n)
                todo += ws[2:]
    out = []
    for n, (text, d, ws, kind) in enumerate(info):
        if n in need and not (kind == "mod" and any(w in by and not any(m in need for m in by[w]) for w in ws[1:])):
            out.append(text.strip())
    return "\n".join(re.sub(r"\n\s*\n+", "\n", t) for t in out) + "\n"


if __name__ == "__main__":
    print(lean("/repo/src/bin/fl"))
