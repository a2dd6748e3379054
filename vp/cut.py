"""Mechanical annotation of real C text (preprocessed source, or the C rendering of gfortran's GENERIC dump):
loops are cut at their invariants, callees are replaced by contracts, and CBMC discharges the resulting
loop-free verification conditions for every input. Nothing of the code is dropped except what `drop` says."""
import re, time
from .core import *

ID = r"[A-Za-z_]\w*"


def cpp(src, defs=(), incs=()):
    cmd = ["gcc", "-E", "-P"] + [f for f in CFLAGS if f[:2] in ("-D", "-I", "-s")] + list(defs) + [f"-I{i}" for i in incs] + [src]
    rc, o, e = sh(cmd, timeout=60)
    if rc != 0:
        raise ToolError(f"cpp failed on {src}: {e[-800:]}")
    return o


def skip_lit(t, i):
    q = t[i]
    i += 1
    while t[i] != q:
        if t[i] == "\\":
            i += 1
        i += 1
    return i + 1


def mask_lits(t):
    """same-length copy with the contents of string/char literals and comments blanked"""
    return re.sub(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])+\'|/\*.*?\*/',
                  lambda m: m.group(0) if m.group(0) == "/*__vp_cut*/" else m.group(0)[0] + "_" * (len(m.group(0)) - 2) + m.group(0)[-1] if m.group(0)[0] in "\"'" else " " * len(m.group(0)), t, flags=re.S)


def match(t, i):
    """index of the bracket matching t[i]"""
    o = t[i]
    c = {"(": ")", "{": "}", "[": "]"}[o]
    d = 0
    while i < len(t):
        ch = t[i]
        if ch in "\"'":
            i = skip_lit(t, i)
            continue
        if ch == o:
            d += 1
        elif ch == c:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ToolError("unbalanced bracket")


def ws(t, i):
    while i < len(t) and (t[i].isspace() or t.startswith("/*__vp_cut*/", i)):
        i += 1 if t[i].isspace() else 12
    return i


def stmt_end(t, i):
    """index just past the C statement starting at i"""
    i = ws(t, i)
    if t[i] == "{":
        return match(t, i) + 1
    m = re.compile(r"(if|while|for|switch)\b\s*").match(t, i)
    if m:
        p = ws(t, m.end())
        j = stmt_end(t, match(t, p) + 1)
        if m.group(1) == "if":
            k = ws(t, j)
            if re.compile(r"else\b").match(t, k):
                return stmt_end(t, k + 4)
        return j
    if re.compile(r"do\b").match(t, i):
        j = stmt_end(t, i + 2)
        j = t.index("(", j)
        j = match(t, j)
        return t.index(";", j) + 1
    m = re.compile(r"(case\b[^:;]*|default\s*|[A-Za-z_]\w*\s*):(?!:)").match(t, i)
    if m and not re.match(r"(return|goto|break|continue)\b", m.group(0)):
        return stmt_end(t, m.end())
    while t[i] != ";":
        if t[i] in "\"'":
            i = skip_lit(t, i)
        elif t[i] in "({[":
            i = match(t, i) + 1
        else:
            i += 1
    return i + 1


def find_func(t, name):
    """(start_of_declarator, body_open, body_close) of the definition of `name`"""
    for m in re.finditer(r"\b%s\s*\(" % re.escape(name), t):
        p = t.index("(", m.start())
        try:
            q = match(t, p)
        except ToolError:
            continue
        k = ws(t, q + 1)
        if k < len(t) and t[k] == "{":
            return m.start(), k, match(t, k)
    raise ToolError(f"no definition of {name} in the extracted text")


def has_func(t, name):
    try:
        find_func(t, name)
        return True
    except ToolError:
        return False


def body_of(t, name):
    s, b, e = find_func(t, name)
    return t[b:e + 1]


def decl_start(t, s):
    """start of the declaration whose declarator begins at s"""
    i = s
    while i > 0 and t[i - 1] not in ";}":
        i -= 1
    return i


def func_text(t, name):
    s, b, e = find_func(t, name)
    return t[decl_start(t, s):e + 1].strip()


def replace_body(t, name, newbody):
    s, b, e = find_func(t, name)
    return t[:b] + "{" + newbody + "}" + t[e + 1:]


def list_loops(body):
    """[(kind, start, end, header_parts, body_start, body_end)] outermost-first in text order.
       The `while` of a do-while is not listed on its own."""
    res, i = [], 0
    orig = body
    body = mask_lits(body)
    do_whiles = set()
    pat = re.compile(r"\b(for|while|do)\b")
    while True:
        m = pat.search(body, i)
        if not m:
            break
        i = m.end()
        # inside a literal?  (cheap check: count quotes on the line)
        if m.group(1) == "do":
            bs = ws(body, m.end())
            be = stmt_end(body, bs)
            w = re.compile(r"\s*while\s*").match(body, be)
            if not w:
                raise ToolError("do without while")
            do_whiles.add(body.index("while", be))
            p = body.index("(", be)
            q = match(body, p)
            res.append(("do", m.start(), body.index(";", q) + 1, (orig[p + 1:q],), bs, be))
        else:
            if m.start() in do_whiles:
                continue
            p = ws(body, m.end())
            if body[p] != "(":
                continue
            q = match(body, p)
            bs = ws(body, q + 1)
            be = stmt_end(body, bs)
            hdr = body[p + 1:q]
            if m.group(1) == "for":
                parts, d, last = [], 0, 0
                for k, ch in enumerate(hdr):
                    if ch in "([{":
                        d += 1
                    elif ch in ")]}":
                        d -= 1
                    elif ch == ";" and d == 0:
                        parts.append(orig[p + 1 + last:p + 1 + k])
                        last = k + 1
                parts.append(orig[p + 1 + last:q])
            else:
                parts = (orig[p + 1:q],)
            res.append((m.group(1), m.start(), be, tuple(x.strip() for x in parts), bs, be))
    return res


def assigned(text):
    """(scalars assigned by name, base identifiers written through); an assignment of a form not understood is an error"""
    sc, mem, seen = set(), set(), set()
    text = mask_lits(text).replace("/*__vp_cut*/", " " * 12)
    asg = r"(?:=(?!=)|\+=|-=|\*=|/=|%=|&=|\|=|\^=|<<=|>>=|\+\+|--)"
    local = local_decls(text)
    for m in re.finditer(r"(%s)((?:\s*(?:->|\.)\s*%s|\s*\[(?:[^\[\]]|\[(?:[^\[\]]|\[[^\[\]]*\])*\])*\])*)\s*(%s)" % (ID, ID, asg), text):
        base, acc = m.group(1), m.group(2).strip()
        if base in ("return", "sizeof", "else"):
            continue
        seen.add(m.start(3))
        if acc and ("->" in acc or "[" in acc):
            mem.add(base)
        else:
            pre = text[:m.start()].rstrip()
            if pre.endswith("*") and re.search(r"(^|[;{}(,=&|!<>+\-:?]|\breturn|\belse|\))\s*\**$", pre):
                if m.group(0).rstrip().endswith("++") or m.group(0).rstrip().endswith("--"):
                    sc.add(base)          # *p++ : p changes; write-through is caught below
                else:
                    mem.add(base)
            else:
                sc.add(base)
    for m in re.finditer(r"(\+\+|--)\s*(%s)" % ID, text):
        seen.add(m.start(1))
        sc.add(m.group(2))
    for m in re.finditer(r"\*\s*(%s)\s*(?:\+\+|--)\s*(?:\)\s*)*(%s)" % (ID, asg), text):
        seen.add(m.start(2))
        mem.add(m.group(1))
    for m in re.finditer(r"\(\s*\*\s*(%s)\s*\)\s*(?:\[(?:[^\[\]]|\[[^\[\]]*\])*\]\s*)?(%s)" % (ID, asg), text):
        seen.add(m.start(2))
        (mem if m.group(2) not in ("++", "--") else mem).add(m.group(1))
    for m in re.finditer(r"\*\s*\(([^()]*)\)\s*(%s)" % asg, text):
        seen.add(m.start(2))
        mem |= set(re.findall(ID, m.group(1))[:1])
    # any other lvalue: a parenthesised expression, possibly dereferenced, subscripted or a member
    for m in re.finditer(asg, text):
        if m.start() in seen:
            continue
        k = m.start() - 1
        if m.group(0) == "=" and text[k] in "=!<>+-*/%&|^":
            continue
        if m.group(0) in ("++", "--") and any(x == m.start() for x in seen):
            continue
        while k >= 0 and text[k].isspace():
            k -= 1
        # walk back over the lvalue
        while k >= 0 and (text[k] in ")]" or re.match(r"[\w.]", text[k]) or text[k] == ">" and text[k - 1] == "-"):
            if text[k] in ")]":
                d = 0
                while True:
                    d += (text[k] in ")]") - (text[k] in "([")
                    if d == 0:
                        break
                    k -= 1
                k -= 1
            elif text[k] == ">":
                k -= 2
            else:
                k -= 1
            while k >= 0 and text[k].isspace():
                k -= 1
        lv = text[k + 1:m.start()]
        ids = [x for x in re.findall(ID, re.sub(r"\(\s*(?:const\s+|unsigned\s+|signed\s+|struct\s+)*%s\s*\*+\s*(?:restrict)?\s*\)" % ID, " ", lv))]
        if not ids:
            raise ToolError(f"assignment not understood: {text[max(0, k - 20):m.end() + 10]!r}")
        if re.fullmatch(ID, lv.strip()) and text[:k + 1].rstrip()[-1:] != "*":
            sc.add(lv.strip())
        else:
            mem.add(ids[0])
    # addresses handed to callees may be written through
    for m in re.finditer(r"[(,]\s*&\s*(%s)\s*(\[|->|\.)?" % ID, text):
        (mem if m.group(2) in ("[", "->") else sc).add(m.group(1))
    return sc - local, mem


def local_decls(text):
    """names declared by the declarations in `text`"""
    res = set()
    text = re.sub(r"/\*__vp_cut\*/", " " * 12, text)
    for m in re.finditer(r"(?:^|(?<=[;{}:]))\s*((?:(?:const|register|static|unsigned|signed|struct|volatile)\s+)*(%s))[\s*]+(?:const\s+)?(?:restrict\s+)?(%s)\s*(?=[=;,\[])(?!==)" % (ID, ID), text):
        if m.group(2) in ("return", "goto", "else", "case"):
            continue
        res.add(m.group(3))
        # further declarators of the same declaration
        i, d = m.end(), 0
        while i < len(text) and not (text[i] == ";" and d == 0):
            if text[i] in "([{":
                d += 1
            elif text[i] in ")]}":
                d -= 1
            elif text[i] == "," and d == 0:
                n = re.compile(r",[\s*]*(%s)" % ID).match(text, i)
                if n:
                    res.add(n.group(1))
            i += 1
    return res


class Loop:
    """Loop contract. `sel`: regex searched in the loop text (header + body); `nth`: which match.
       inv: C expressions; ptr: {pointer_var: 'lvalue expr to re-derive it'} ; mem: {base: havoc statement};
       ghost_in / ghost_out: ghost code at the start of the body / after body+step; extra: extra havoc stmts."""

    def __init__(self, inv, sel=None, nth=0, all=False, ptr=None, mem=None, ghost_in="", ghost_out="", pre="", extra="",
                 keep=(), dec=None, name=None, optional=False, calls=(), lemma=""):
        self.inv, self.sel, self.nth, self.all = inv, sel, nth, all
        self.ptr, self.mem = ptr or {}, mem or {}
        self.ghost_in, self.ghost_out, self.pre, self.extra = ghost_in, ghost_out, pre, extra
        self.keep, self.dec, self.name, self.optional, self.calls = set(keep), dec, name, optional, calls
        self.lemma = lemma      # C assumptions instantiating separately proved lemmas / universally quantified preconditions


_KW = set("if while for do switch return sizeof goto break continue else case default".split())


def cut_loops(t, func, specs, label=None):
    """Return text with the loops of `func` selected by specs cut at their invariants."""
    label = label or func
    nid = [0]
    for spec in specs:
        done = 0
        start_from = 0
        while True:
            s, b, e = find_func(t, func)
            body = t[b:e + 1]
            loops = [l for l in list_loops(body) if "__vp_cut" not in body[l[1]:l[4]]]
            cand = [l for l in loops if not spec.sel or re.search(spec.sel, body[l[1]:l[2]], re.S)]
            # innermost candidates first so that a regex on the body does not pick an enclosing loop
            cand = [l for l in cand if not any(o is not l and o[1] >= l[1] and o[2] <= l[2] and
                                               (not spec.sel or re.search(spec.sel, body[o[1]:o[2]], re.S)) for o in loops)]
            if spec.all:
                if not cand:
                    break
                l = cand[0]
            else:
                if done:
                    break
                if len(cand) <= spec.nth:
                    if spec.optional:
                        break
                    raise ToolError(f"{func}: loop contract {spec.name or spec.sel!r} does not attach (loop not found)")
                l = cand[spec.nth]
            done += 1
            nid[0] += 1
            k = f"{nid[0]}"
            body = _cut_one(body, l, spec, f"{label}.{spec.name or 'loop' + k}", f"{re.sub(chr(92)+'W','_',label)}_{k}")
            t = t[:b] + body + t[e + 1:]
        if spec.all and not done and not spec.optional:
            raise ToolError(f"{func}: loop contract {spec.name or spec.sel!r} does not attach")
    return t


def _break_to_goto(bd, lab):
    """replace break statements belonging to this loop by goto lab"""
    nested = [(l[1], l[2]) for l in list_loops(bd)]
    for m in re.finditer(r"\bswitch\s*\(", bd):
        nested.append((m.start(), stmt_end(bd, m.start())))
    out, last, hit = [], 0, False
    for m in re.finditer(r"\bbreak\s*;", bd):
        if any(a <= m.start() < z for a, z in nested):
            continue
        out.append(bd[last:m.start()] + f"goto {lab};")
        last = m.end()
        hit = True
    out.append(bd[last:])
    return "".join(out), hit


def _cut_one(body, l, spec, name, uid):
    kind, ls, le, parts, bs, be = l
    text = body[bs:be]
    init, cond, step = ("", parts[0], "") if kind != "for" else (parts[0], parts[1] or "1", parts[2])
    scan = text + ";" + step + ";" + cond + ";"
    sc, mem = assigned(scan)
    sc -= spec.keep
    # variables declared inside the loop body are local to the iteration
    missing = [m for m in mem if m not in spec.mem and m not in spec.keep] if "*" not in spec.mem else []
    if missing:
        raise ToolError(f"{name}: loop writes through {missing} which its contract does not list")
    calls = set(re.findall(r"\b(%s)\s*\(" % ID, scan)) - _KW
    hv = []
    declared_in = local_decls(text)
    for v in sorted(sc):
        if v in spec.ptr:
            hv.append(spec.ptr[v])
        elif v in declared_in:
            continue
        else:
            hv.append(f"{{__typeof__({v}) __vp_h; {v}=__vp_h;}}")
    for v, st in spec.mem.items():
        hv.append(st)
    hv.append(spec.extra)
    inv = spec.inv
    A = "".join(f'__CPROVER_assert({x},"inv-base {name} #{i}");' for i, x in enumerate(inv))
    U = "".join(f"__CPROVER_assume({x});" for i, x in enumerate(inv)) + spec.lemma
    S = "".join(f'__CPROVER_assert({x},"inv-step {name} #{i}");' for i, x in enumerate(inv))
    D0 = D1 = ""
    if spec.dec:
        D0 = f"long __vp_d{uid}=(long)({spec.dec});"
        D1 = f'__CPROVER_assert(__vp_d{uid}>=0 && (long)({spec.dec})<__vp_d{uid},"decreases {name}");'
    bd, hasb = _break_to_goto(text, f"__vp_brk_{uid}")
    mark = "/*__vp_cut*/"
    H = "".join(hv)
    if kind == "do":
        r = (f"{{{mark} {spec.pre} {A} {H} {U} {D0} {spec.ghost_in} do {{ {bd} }} while(0); {spec.ghost_out} "
             f"if({cond}) {{ {S} {D1} __CPROVER_assume(0); }} }}")
    else:
        r = (f"{{{mark} {init}; {spec.pre} {A} {H} {U} {D0} if({cond}) {{ {spec.ghost_in} do {{ {bd} }} while(0); "
             f"{step}; {spec.ghost_out} {S} {D1} __CPROVER_assume(0); }} }}")
    if hasb:
        r += f" __vp_brk_{uid}:;"
    # mark the remaining do..while(0) so it is not listed as a loop to cut
    r = r.replace("do { " + bd, "do /*__vp_cut*/ { " + bd)
    return body[:ls] + r + body[le:]


def cut_label(t, func, label, inv, havoc, name=None, dec=None):
    """Cut a backward-goto loop at its label."""
    s, b, e = find_func(t, func)
    body = t[b:e + 1]
    name = f"{func}.{name or label}"
    m = re.search(r"\b%s\s*:\s*;?" % re.escape(label), body)
    if not m:
        raise ToolError(f"{func}: label {label} not found")
    A = "".join(f'__CPROVER_assert({x},"inv-base {name} #{i}");' for i, x in enumerate(inv))
    U = "".join(f"__CPROVER_assume({x});" for x in inv)
    S = "".join(f'__CPROVER_assert({x},"inv-step {name} #{i}");' for i, x in enumerate(inv))
    fl = f"__vp_seen_{label}"
    D0 = D1 = ""
    if dec:
        D0 = f"__vp_dec_{label}=(long)({dec});"
        D1 = f'__CPROVER_assert(__vp_dec_{label}>=0 && (long)({dec})<__vp_dec_{label},"decreases {name}");'
    ins = f"{label}:; if({fl}) {{ {S} {D1} __CPROVER_assume(0); }} {fl}=1; {A} {havoc} {U} {D0}"
    body = "{" + f"int {fl}=0; long __vp_dec_{label}=0;" + body[1:m.start()] + ins + body[m.end():]
    return t[:b] + body + t[e + 1:]


PRELUDE = r'''
#define VP_ASSERT(c,n) __CPROVER_assert(c,n)
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_REACH(n) __CPROVER_assert(0,"reach:" n)
static int vp_int(void){int x;return x;} static unsigned vp_uint(void){unsigned x;return x;}
static long vp_long(void){long x;return x;} static unsigned char vp_uchar(void){unsigned char x;return x;}
static short vp_short(void){short x;return x;} static float vp_float(void){float x;return x;}
static double vp_double(void){double x;return x;} static unsigned long vp_ulong(void){unsigned long x;return x;}
'''


def run_cbmc(ctx, name, text, func, unwind=2, opts=(), timeout=300, checks=(), solver="cadical", bounded=None,
             expect=None, reach=True, unwindset=None, prefilter=None):
    """Discharge every assertion in `text` (entry: main). Records one Ob per assertion."""
    safe = re.sub(r"\W", "_", name)
    src = ctx.write(safe + ".c", text)
    gb = ctx.path(safe + ".gb")
    rc, o, e = sh(["goto-cc", "-w", "-o", gb, src], timeout=120)
    if rc != 0:
        raise ToolError(f"goto-cc {name}: {(o+e)[-1500:]}")
    cmd = ["cbmc", gb, "--no-standard-checks", "--unwinding-assertions", "--unwind", str(unwind), "--slice-formula"]
    if unwindset:
        cmd += ["--unwindset", unwindset]
    cmd += list(checks) + list(opts)
    if solver in ("cadical", "minisat2"):
        cmd += ["--sat-solver", solver]
    elif solver:
        cmd += ["--" + solver]
    shown = "cbmc " + " ".join(cmd[2:])
    with ctx.lock:
        ctx.cmds.append(shown)
    t = time.time()
    with ctx.sem:
        rc, o, e = sh(cmd, timeout=min(timeout, ctx.left()), mem_gb=12)
    secs = time.time() - t
    back = f"cbmc/{solver}"
    if rc is None or rc not in (0, 10):
        ctx.add(Ob(name + ":*", "unknown", back, secs, "timeout" if rc is None else f"exit {rc}: {(o+e)[-400:]}", func, bounded))
        return None
    res = re.findall(r"^\[([^\]]+)\] (?:line \d+ |file \S+ line \d+ |)(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", o, re.M)
    fails, n, unw = [], 0, False
    nob = [d for _, d, st in res if "no body for callee" in d and st == "FAILURE"]
    if nob:
        raise ToolError(f"{name}: calls without contract: {nob[:5]}")
    for pid, desc, st in res:
        if desc.startswith("reach:"):
            with ctx.lock:
                ctx.reach.append((f"{name}:{desc[6:]}", st == "FAILURE"))
            continue
        if "unwinding assertion" in desc and st != "SUCCESS":
            unw = True
    each = secs / max(1, len(res))
    for pid, desc, st in res:
        if desc.startswith("reach:"):
            continue
        n += 1
        nm = f"{name}:{desc}"
        if "unwinding assertion" in desc:
            ctx.add(Ob(nm, "proved" if st == "SUCCESS" else "unknown", back, each, "" if st == "SUCCESS" else "unwinding bound reached", func, bounded))
        elif st == "SUCCESS":
            ctx.add(Ob(nm, "unknown" if unw else "proved", back, each, "", func, bounded))
        elif st == "FAILURE":
            fails.append((pid, desc, nm, each))
        else:
            ctx.add(Ob(nm, "unknown", back, each, st, func, bounded))
    if fails:
        detail = ""
        with ctx.sem:
            rc2, o2, e2 = sh(cmd + ["--property", fails[0][0], "--trace", "--compact-trace"], timeout=min(120, ctx.left()), mem_gb=12)
        if rc2 == 10:
            detail = o2[o2.find("Counterexample") if "Counterexample" in o2 else 0:][-5000:]
        for i, (pid, desc, nm, each) in enumerate(fails):
            ctx.add(Ob(nm, "failed", back, each, detail if i == 0 else "", func, bounded))
    if n == 0:
        raise ToolError(f"{name}: no obligations generated")
    return not fails and not unw


def harness_reach_ok(ctx):
    return all(r for _, r in ctx.reach)
