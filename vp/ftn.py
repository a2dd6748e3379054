"""Fortran source -> C text, mechanically, from gfortran's own GENERIC dump (-fdump-tree-original).
The dump is what gfortran compiles; the translation only rewrites spelling. What it drops: formatted I/O statements
(their blocks call the Fortran runtime), size bookkeeping of array parameters is kept."""
import re, threading
from .core import *
from . import cut

TYPES = [(r"integer\(kind=(\d)\)", r"vp_i\1"), (r"logical\(kind=(\d)\)", r"vp_i\1"), (r"real\(kind=4\)", "float"),
         (r"real\(kind=8\)", "double"), (r"character\(kind=1\)", "vp_ch"), (r"\buint(\d+)_t\b", r"uint\1_t")]
TPRE = r'''typedef signed char vp_i1; typedef short vp_i2; typedef int vp_i4; typedef long vp_i8; typedef __int128 vp_i16; typedef unsigned char vp_ch;
typedef unsigned long sizetype; typedef unsigned long bitsizetype; typedef long ssizetype;
void *memmove(void*,const void*,unsigned long); void *memcpy(void*,const void*,unsigned long); void *memset(void*,int,unsigned long);
void *malloc(unsigned long); void free(void*);
#define __builtin_malloc malloc
#define __builtin_free free
#define __builtin_memmove memmove
#define __builtin_memcpy memcpy
#define __builtin_memset memset
#define VP_MAX(a,b) ((a)>(b)?(a):(b))
#define VP_MIN(a,b) ((a)<(b)?(a):(b))
#define VP_ABS(a) ((a)<0?-(a):(a))
struct vp_dim{long stride,lbound,ubound;}; struct vp_dty{unsigned long elem_len; int version; signed char rank,type; short attribute;};
#define VP_DESC(T) struct array01_##T{void *data; long offset; struct vp_dty dtype; long span; struct vp_dim dim[1];};
VP_DESC(vp_i1) VP_DESC(vp_i2) VP_DESC(vp_i4) VP_DESC(vp_i8) VP_DESC(float) VP_DESC(double)
'''


def dump(ctx, src, extra=()):
    """one gfortran run per source and option set (translations run in parallel threads)"""
    key = (src, tuple(extra))
    with ctx.lock:
        locks = ctx.__dict__.setdefault("dump_locks", {})
        lk = locks.setdefault(key, threading.Lock())
        n = list(locks).index(key)
    with lk:
        cache = ctx.__dict__.setdefault("dump_cache", {})
        if key not in cache:
            cache[key] = _dump(ctx, src, extra, n)
        return cache[key]


def _dump(ctx, src, extra, n):
    base = f"{n}_" + os.path.basename(src)
    d = ctx.path(base + ".dump")
    o = ctx.path(base + ".dump.o")
    cmd = ["gfortran", "-c", f"-fdump-tree-original={d}"] + FFLAGS + [f"-J{ctx.work}", f"-I{ctx.work}", f"-I{os.path.dirname(src)}"] + list(extra) + [src, "-o", o]
    rc, out, err = sh(cmd, timeout=120, cwd=ctx.work)
    if rc != 0:
        raise ToolError(f"gfortran failed on {src}: {err[-1500:]}")
    return open(d).read()


def _angle(t, name, fn):
    while True:
        m = re.search(name + r" <", t)
        if not m:
            return t
        i, d = m.end(), 1
        while d:
            c = t[i]
            if c == "<" and t[i - 1] == " " and re.search(r"_EXPR $", t[:i]):
                d += 1
            elif c == ">" and t[i - 1] not in " -" and t[i:i + 2] != ">>":
                d -= 1
            i += 1
        t = t[:m.start()] + fn(t[m.end():i - 1]) + t[i:]


def _drop_io(t, allow_read=False):
    dropped = []
    while True:
        m = re.search(r"\{\s*struct __st_parameter_(?:dt|open|close|inquire|filepos)\b", t)
        if not m:
            return t, dropped
        e = cut.match(t, m.start())
        blk = t[m.start():e + 1]
        if ("st_read" in blk or "internal_unit" in blk) and not allow_read:
            dropped.append("internal I/O")
            t = t[:m.start()] + "__vp_internal_io();" + t[e + 1:]
            continue
        dropped.append(re.sub(r"\s+", " ", blk)[:80])
        t = t[:m.start()] + ";" + t[e + 1:]


def _lb(t):
    """a[idx]{lb: L sz: S} -> a[(idx)-(L)]"""
    while True:
        m = re.search(r"\]\{lb: ([^{}]*?) sz: [^{}]*?\}", t)
        if not m:
            return t
        i, d = m.start(), 0
        while True:
            if t[i] == "]":
                d += 1
            elif t[i] == "[":
                d -= 1
                if d == 0:
                    break
            i -= 1
        idx = t[i + 1:m.start()]
        t = t[:i] + f"[({idx})-({m.group(1)})]" + t[m.end():]


def _alias(t):
    for nm, ex in re.findall(r"(\S+) \[value-expr: ([^\n]*)\];", t):
        t = re.sub(r"[^\n;{}]*(?<![\w.])%s \[value-expr: [^\n]*\];\n" % re.escape(nm), "", t)
        base = re.sub(r"\[.*", "", nm)
        t = re.sub(r"(?<!integer\(kind=\d\) )(?<!real\(kind=\d\) )(?<!logical\(kind=\d\) )(?<!character\(kind=\d\) )(?<![\w.\"])%s(?![\w.])" % re.escape(base),
                   lambda _: "(" + ex + ")" if " " in ex else ex, t)
    return t


def to_c(d, ren=None):
    """GENERIC dump -> C"""
    t = re.sub(r"__attribute__\(\(fn spec[^\n]*\)\)\)?\n", "", d)
    t = re.sub(r'&("(?:[^"\\]|\\.)*")\[1\]\{lb: 1 sz: 1\}', r"\1", t)
    t, dropped = _drop_io(t)
    t = re.sub(r"master\.(\d+)\.", r"master_\1_", t)
    t = re.sub(r"(?<=[ (,])\.(_?\w+)", r"len_\1", t)          # hidden result length  .__result
    # value-expr aliases
    t = "\n\n\n".join(_alias(x) for x in t.split("\n\n\n"))
    t = re.sub(r"\b([A-Za-z_]\w*)\.(\d+)\b", r"\1_\2", t)
    t = re.sub(r"\b([A-Za-z_]\w*)\.(\d+)\b", r"\1_\2", t)
    for a, b in TYPES:
        t = re.sub(a, b, t)
    t = _angle(t, "NON_LVALUE_EXPR", lambda x: f"({x})")
    t = _angle(t, "MAX_EXPR", lambda x: f"VP_MAX({x})")
    t = _angle(t, "MIN_EXPR", lambda x: f"VP_MIN({x})")
    t = _angle(t, "ABS_EXPR", lambda x: f"VP_ABS({x})")
    # array descriptors (pointer arrays): bounds types disappear, POINTER_PLUS on elements counts bytes
    t = re.sub(r"\n\s*typedef \w+ \[[^\]]*\];", "", t)
    t = re.sub(r"\n *[\w.]+\.dtype = \{[^;]*;", "", t)
    t = re.sub(r"\b0B\b", "0", t)
    t = re.sub(r"\bvoid \*\[0:\] \* (\w+)", r"void *\1", t)
    t = re.sub(r"\(\*\((vp_\w+|float|double)\[\d*:?\d*\] \*(?: restrict)?\) ([\w.]+)\)\[", r"((\1 *) \2)[", t)
    t = re.sub(r"\((vp_\w+|float|double)\[0:\] \*\)", r"(\1 *)", t)
    t = re.sub(r"\b(vp_\w+|float|double)\[0:\] \* (D_\d+);", r"\1 * \2;", t)
    t = re.sub(r"\*\(\((vp_\w+|float|double) \*\) (D_\d+) \+ \(sizetype\)", r"*(\1 *)((char *) \2 + (sizetype)", t)
    # array parameters:  T[0:D] * restrict x   |   T[1:8] & x  | T[0:D][1:k] * restrict x (array of strings: left flat)
    arr = set()

    def ap(m):
        arr.add(m.group(3))
        return f"{m.group(1)} *{m.group(3)}"
    t = re.sub(r"\b([\w ]+?)((?:\[[^\]]*:[^\]]*\])+) [*&] (?:restrict )?(\w+)", ap, t)
    t = re.sub(r"\b((?:vp_\w+|float|double|complex|struct \w+)) & (?:restrict )?(\w+)(?=[,)])", r"\1 *\2", t)
    t = re.sub(r"\* restrict ", "*", t)
    for a in arr:
        t = re.sub(r"\(\*%s\)\[" % re.escape(a), a + "[", t)
    t = _lb(t)
    # local strings T x[1:n];
    t = re.sub(r"\[1:(\w+)\](?=[;\[ =])", r"[\1]", t)
    t = re.sub(r"\bstatic vp_ch", "static const vp_ch", t) if False else t
    # DO loops:  while (1) { { int D; D = c; if (D) goto L; ...   ->  while (!(c)) { { ...
    t = re.sub(r"while \(1\)\s*\{\s*\{\s*vp_i4 (D_\d+);\s*\1 = ([^;]*);\s*if \(\1\) goto (\w+);", r"while (!(\2)) { {", t)
    # assigned GOTO: label addresses become numbers, the computed goto a switch over every label assigned in the function
    for v in set(re.findall(r"\bvoid \* (\w+);", t)):
        labs = sorted(set(re.findall(r"\b%s = &(\w+);" % v, t)))
        if not labs:
            continue
        for k, l in enumerate(labs):
            t = re.sub(r"\b%s = &%s;" % (v, l), f"{v} = {k};", t)
        t = re.sub(r"\bvoid \* %s;" % v, f"int {v};", t)
        t = re.sub(r"\bgoto %s;" % v, "switch (%s) { %s }" % (v, " ".join(f"case {k}: goto {l};" for k, l in enumerate(labs))), t)
    if ren:
        for a, b in ren.items():
            t = re.sub(r"\b%s\b" % re.escape(a), b, t)
    return t, dropped


def ftn2c(ctx, src, extra=(), ren=None):
    t, dropped = to_c(dump(ctx, src, extra), ren)
    return t


def split_funcs(t):
    """{name: text} of the translated functions"""
    out = {}
    for m in re.finditer(r"(?m)^(?:\w[\w ]*?[ *]+)(\w+) \(", t):
        try:
            s, b, e = cut.find_func(t[m.start():], m.group(1))
            out[m.group(1)] = t[m.start():m.start() + e + 1]
        except ToolError:
            pass
    return out


def protos(t):
    return "".join(re.sub(r"\s*\{.*", ";\n", f, flags=re.S) for f in split_funcs(t).values())
