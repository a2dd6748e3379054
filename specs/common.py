"""Helpers shared by the specs."""
from vp.cut import *
from vp import ftn, smt

TB_C = ["CBMC 6.11 (goto-cc front end, symbolic execution, CaDiCaL)", "gcc preprocessor (macro expansion of the real source)", "vp/cut.py loop cutting (havoc/assume/assert of the stated invariants)"]
TB_F = ["CBMC 6.11 (goto-cc front end, symbolic execution, CaDiCaL)", "gfortran front end (its GENERIC dump of the real source is the verified text) and vp/ftn.py (spelling translation to C; drops formatted I/O)",
        "vp/cut.py loop cutting (havoc/assume/assert of the stated invariants)"]
FPRE = PRELUDE + ftn.TPRE + "void __vp_internal_io(void){} void lib_log(void*a,void*b,void*c,long l){} void app_log(void*a,void*c,long l){} vp_ch app_msg[4096];\n"


def fsrc(ctx, rel, need_app=False, extra=(), ren=None):
    """translated text of a Fortran file of /repo/src with prototypes"""
    if need_app:
        ctx.app_module()
    t = ftn.ftn2c(ctx, f"{REPO}/src/{rel}", extra, ren)
    return t


def ftext(t):
    return FPRE + ftn.protos(t) + t


def native(ctx, name, objs, args=(), lang="c", extra=(), src=None, timeout=300, link=()):
    """build native/<name>.c with the real objects and run it"""
    try:
        cc = ctx.cobj(f"{VERIF}/native/{src or name}.c", extra=list(extra) + [f"-I{VERIF}/native"], name="oracle_" + name)
        exe = ctx.path("exe_" + name)
        cmd = ["gfortran" if lang == "f" else "gcc", "-o", exe, cc] + [o() if callable(o) else o for o in objs] + list(link) + ["-lm", "-lpthread"]
        rc, o, e = sh(cmd, timeout=120, cwd=ctx.work)
        if rc != 0:
            raise ToolError(f"native link {name}: {e[-1500:]}")
        ctx.native(name, exe, args, timeout=timeout)
    except ToolError as e:
        ctx.tool_errors.append(f"native oracle {name}: {e}")


def attempt(ctx, label, fn):
    return (label, fn)


def fststack(ctx):
    """archive of the real standard-file/BURP stack (all of fstd98, base, primitives, packers, compresseur, burp98_f), built natively"""
    def go():
        import glob
        from concurrent.futures import ThreadPoolExecutor
        S = REPO + "/src/"
        ctx.app_module()
        first = [S + "fstd98/convert_ip123.f90", S + "base/moduledate.f90"]
        objs = [ctx.path("vpstub_app.o")]
        objs += [ctx.fobj(f, name="st_" + os.path.basename(f)) for f in first]
        cs = [f for d in ("packers", "compresseur", "primitives", "fstd98", "base") for f in sorted(glob.glob(S + d + "/*.c"))]
        fs = [f for g in ("base/*.f", "base/*.F", "base/*.F90", "base/*.f90", "primitives/*.f", "primitives/*.F90", "primitives/*.F", "compresseur/*.f*", "compresseur/*.F*", "packers/*.f", "burp98_f/*.F90",
                          "fstd98/convip_plus.f90", "fstd98/hybref.f90", "fstd98/convip.f", "fstd98/fstcvt2.f") for f in sorted(glob.glob(S + g)) if f not in first]
        bad = []

        def one(f):
            try:
                return (ctx.cobj if f.endswith(".c") else ctx.fobj)(f, name="st_" + os.path.basename(f))
            except ToolError as e:
                bad.append(f"{os.path.basename(f)}: {str(e)[-200:]}")
        with ThreadPoolExecutor(NCPU) as ex:
            objs += [o for o in ex.map(one, cs + fs) if o]
        ar = ctx.path("libstack.a")
        rc, o, e = sh(["ar", "rcs", ar] + objs, timeout=60)
        if rc != 0:
            raise ToolError("ar: " + e[-300:])
        ctx.stack_missing = bad
        return ar
    return ctx._once("fststack", go)
