from specs.packint import *

C = dict(fast32=True, arr='arrayOfUnsignedUnpacked', T='unsigned', W='unsigned', signed=False, sub=True, mn='minUnsignedInteger', mx='maxUnsignedInteger')
S = dict(fast32=True, arr='arrayOfSignedUnpacked', T='int', W='int', signed=True, sub=True, mn='minSignedInteger', mx='maxSignedInteger')
QUICK = (1, 7, 8, 13, 16, 24, 31, 32)


def native(ctx, which):
    try:
        exe = ctx.cc(ctx.path("packint"), [f"{VERIF}/native/packint.c", SRC])
        ctx.native("packint", exe, [which])
    except ToolError as e:
        ctx.tool_errors.append(str(e))


def run(ctx):
    ctx.under_contract("compact_integer (ops 1,2,3,4; with and without header; width fixed or detected)")
    ctx.assume("element count 1..2^24-1, bit offset 0..2^20-1, stride 1..64, non-overlapping buffers of sufficient size (caller's precondition)",
               "one readable word follows the packed stream (the unpacker pre-fetches it when a token ends on a word boundary)",
               "token widths 1..32, each width a separate set of obligations; quick tier discharges a sample of widths, thorough all 32",
               "products k*stride and offset+k*width are tracked by ghost accumulators; their arithmetic is proved as integer lemmas (no 32-bit overflow within the stated ranges)",
               "whole-array statements are proved for one arbitrary element, one arbitrary bit of its token and one arbitrary foreign bit (universal generalisation)")
    ctx.trusted += ["CBMC 6.11 (goto-cc front end, symbolic execution, CaDiCaL)", "gcc preprocessor (macro expansion of the real source)",
                    "vp/cut.py loop cutting (havoc/assume/assert of stated invariants)", "z3/cvc5 for the integer lemmas",
                    "stub App.h: logging calls have no effect on packing"]
    src = cpp(SRC)
    widths = range(1, 33) if ctx.thorough else QUICK
    jobs = [("native", lambda: native(ctx, 1)), ("lemmas", lambda: lemmas(ctx))]
    F = "compact_integer"
    for nb in reversed(list(widths)):
        for hdr in (False, True):
            for op, cfg in ((1, C), (3, S)):
                jobs.append((f"pack op{op} {nb}", lambda op=op, cfg=cfg, hdr=hdr, nb=nb: pack_job(ctx, src, F, op, hdr, nb, False, cfg)))
                jobs.append((f"unpack op{op+1} {nb}", lambda op=op, cfg=cfg, hdr=hdr, nb=nb: unpack_job(ctx, src, F, op + 1, hdr, nb, cfg)))
                if ctx.thorough or nb in (1, 13, 32):
                    jobs.append((f"auto op{op} {nb}", lambda op=op, cfg=cfg, hdr=hdr, nb=nb: pack_job(ctx, src, F, op, hdr, nb, False, cfg, True)))
    ctx.parallel(jobs)
    return "proof", "token/bit-position contracts on the real packer and unpacker, loops cut at invariants, every obligation discharged by CBMC (unbounded element count, offset, stride); one obligation set per token width"
