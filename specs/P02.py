from specs.packint import *
from specs.P01 import native

H = dict(arr='arrayOfUnsignedShort', T='unsigned short', W='unsigned', signed=False, sub=False, mn='minUnsignedInteger', mx='maxUnsignedInteger')
B = dict(arr='arrayOfUnsignedChar', T='unsigned char', W='unsigned', signed=False, sub=False, mn='minUnsignedInteger', mx='maxUnsignedInteger')


def run(ctx):
    ctx.under_contract("compact_short (ops 5,6)", "compact_char (ops 9,10)")
    ctx.assume("element count 1..2^24-1, bit offset 0..2^20-1, stride 1..64, non-overlapping buffers of sufficient size (caller's precondition)",
               "one readable word follows the packed stream", "token widths 1..16 (16-bit elements) and 1..8 (bytes), quick tier a sample of them, thorough all; without header, the form every caller in the tree uses, plus the header form for values that fit the token")
    ctx.trusted += ["CBMC 6.11 (goto-cc front end, symbolic execution, CaDiCaL)", "gcc preprocessor", "vp/cut.py loop cutting", "z3/cvc5 for the integer lemmas", "stub App.h: logging calls have no effect"]
    src = cpp(SRC)
    jobs = [("native", lambda: native(ctx, 2)), ("lemmas", lambda: lemmas(ctx))]
    for F, op, cfg, ws in (("compact_short", 5, H, range(1, 17)), ("compact_char", 9, B, range(1, 9))):
        for nb in (ws if ctx.thorough else [w for w in ws if w in (1, 5, 7, 8, 9, 15, 16)]):
            for hdr in ((False, True) if ctx.thorough or nb in (5, 8, 16) else (False,)):
                jobs.append((f"{F} {nb}", lambda F=F, op=op, cfg=cfg, hdr=hdr, nb=nb: pack_job(ctx, src, F, op, hdr, nb, False, cfg)))
                jobs.append((f"{F} un {nb}", lambda F=F, op=op, cfg=cfg, hdr=hdr, nb=nb: unpack_job(ctx, src, F, op + 1, hdr, nb, cfg)))
            jobs.append((f"{F} auto {nb}", lambda F=F, op=op, cfg=cfg, nb=nb: pack_job(ctx, src, F, op, False, nb, False, cfg, True)))
    ctx.parallel(jobs)
    return "proof", "token/bit-position contracts on the real 16-bit and byte packers and unpackers, loops cut at invariants, discharged by CBMC for unbounded element count, offset and stride; one obligation set per width"
