from specs.common import *

W = {16: dict(ty="unsigned short", refl=1, poly="0xA001u", m="0xffffu"), 24: dict(ty="unsigned", refl=0, poly="0x864CFBu", m="0xffffffu"), 32: dict(ty="unsigned", refl=1, poly="0xEDB88320u", m="0xffffffffu")}
G = "static unsigned char *g_d; static unsigned long g_n,g_i; static unsigned g_ref;\n"


def bitstep(w, nm="bitstep"):
    d = W[w]
    if d["refl"]:
        return f"static unsigned {nm}(unsigned c,unsigned char b){{ c^=b; " + f"c=(c&1)?(c>>1)^{d['poly']}:c>>1;" * 8 + f" return c&{d['m']}; }}\n"
    return f"static unsigned {nm}(unsigned c,unsigned char b){{ c^=(unsigned)b<<16; " + f"c=(c&0x800000u)?(c<<1)^{d['poly']}:c<<1;" * 8 + f" return c&{d['m']}; }}\n"


def tblstep(w):
    d = W[w]
    if d["refl"]:
        return f"static unsigned step(unsigned c,unsigned char b){{ return (crc_table[(c^b)&255u]^(c>>8))&{d['m']}; }}\n"
    return f"static unsigned step(unsigned c,unsigned char b){{ return (crc_table[((c>>16)^b)&255u]^(c<<8))&{d['m']}; }}\n"


def upd(ctx, w):
    d = W[w]
    t = cpp(f"{REPO}/src/primitives/crc{w}_.c")
    pre = PRELUDE + G
    # table = polynomial
    h = f'''int main(){{ unsigned c=vp_uint(); unsigned char b=vp_uchar(); VP_ASSUME(c<={d['m']}); VP_ASSERT(step(c,b)==bitstep(c,b),"lemma: a table step is the remainder of eight polynomial divisions"); VP_REACH("end"); }}'''
    run_cbmc(ctx, f"table {w}", pre + t + tblstep(w) + bitstep(w) + h, f"crc_table (crc{w}_.c)")
    h = f'''int main(){{ unsigned c=vp_uint(),c2=vp_uint(); unsigned char b=vp_uchar(),b2=vp_uchar(); VP_ASSUME(c<={d['m']}&&c2<={d['m']}); VP_ASSERT(bitstep(c,b)!=bitstep(c2,b)||c==c2,"lemma: a step loses nothing of the checksum"); VP_ASSERT(bitstep(c,b)!=bitstep(c,b2)||b==b2,"lemma: different bytes give different checksums"); VP_REACH("end"); }}'''
    run_cbmc(ctx, f"detection {w}", pre + bitstep(w) + h, f"crc{w}_update")
    # byte loop
    fn = f"crc{w}_update"
    L = Loop(["g_i<=g_n&&data_len==g_n-g_i", "data==g_d+g_i", "crc==g_ref", f"crc<={d['m']}"], ptr={"data": "g_i=vp_ulong(); VP_ASSUME(g_i<=g_n); data=g_d+g_i;"}, pre="g_i=0;g_ref=crc;", extra="g_ref=vp_uint();", ghost_out="g_ref=step(g_ref,g_d[g_i]); g_i++;", name="bytes", keep=())
    c = cut_loops(t, fn, [L]) if True else t
    harn = f'''int main(){{ g_n=vp_ulong(); VP_ASSUME(g_n<(1ul<<40)); g_d=malloc(g_n+1); unsigned c=vp_uint(); VP_ASSUME(c<={d['m']}); unsigned r=%s; VP_ASSERT(g_i==g_n,"every byte is used exactly once, in order"); VP_ASSERT(r==g_ref,"the result is the fold of the byte step over the data"); VP_REACH("end"); }}'''
    run_cbmc(ctx, fn, pre + split(c, tblstep(w)) + harn % f"{fn}(c,g_d,g_n)", fn, opts=["--pointer-check"])
    fn = f"crc{w}_update_le"
    L = Loop(["g_i<=g_n&&data_len==g_n-g_i", "indx==(unsigned)g_i", "crc==g_ref", f"crc<={d['m']}"], pre="g_i=0;g_ref=crc;", extra="g_i=vp_ulong();g_ref=vp_uint();", ghost_out="g_ref=step(g_ref,g_d[g_i^(unsigned long)mask]); g_i++;", name="tokens", keep=())
    c = cut_loops(t, fn, [L])
    c = replace_body(c, f"crc{w}_update", 'g_i=data_len; VP_ASSERT(data==g_d&&data_len==g_n,"call: whole buffer"); g_ref=vp_uint()&' + W[w]["m"] + '; return g_ref;') if has_func(c, f"crc{w}_update") else c
    harn = harn.replace("VP_ASSUME(g_n<(1ul<<40));", "int m=vp_int(); VP_ASSUME(m==0||m==1||m==3||m==7); VP_ASSUME(g_n<(1ul<<31)&&(g_n&m)==0);").replace("every byte is used exactly once, in order", "every byte is used exactly once, in token order").replace("g_d=malloc(g_n+1);", "g_d=malloc(g_n);")
    run_cbmc(ctx, fn, pre + split(c, tblstep(w)) + harn % f"{fn}(c,g_d,g_n,m)", fn, opts=["--pointer-check"])


def split(c, step):
    """insert the reference step right after the table"""
    m = re.search(r"crc_table\[256\]\s*=\s*\{", c)
    if not m:
        raise ToolError("crc table not found")
    e = c.index(";", match(c, m.end() - 1))
    return c[:e + 1] + "\n" + step + c[e + 1:]


def top(ctx):
    t = cpp(f"{REPO}/src/primitives/crc_16_24_32.c")
    st = ""
    for w in (16, 24, 32):
        # contract of the width: result below 2^w, arguments recorded
        st += f"static unsigned g_r{w}; static unsigned g_in{w}; {W[w]['ty']} crc{w}_update_le({W[w]['ty']} crc,const unsigned char*data,unsigned long n,int mask){{ g_calls++; g_w={w}; g_in=crc; g_p=data; g_len=n; g_mask=mask; return g_r; }}\n"
    pre = PRELUDE + "static unsigned g_in,g_r; static int g_calls,g_w,g_mask; static const unsigned char*g_p; static unsigned long g_len;\n"
    h = r'''int main(){ unsigned old=vp_uint(); int w=vp_int(),sz=vp_int(),n=vp_int(),mode=vp_int(),b[4]; VP_ASSUME((sz==1||sz==2||sz==4||sz==8)&&n>=0&&n<(1<<27)&&mode>=0&&mode<=2); unsigned lim=w==16?0xffffu:w==24?0xffffffu:0xffffffffu; g_r=vp_uint(); VP_ASSUME(g_r<=lim);
  unsigned init=w==24?0xb704ceu:w==32?0xffffffffu:0, fin=w==32?0xffffffffu:0; unsigned r; if(vp_int()) r=update_crc_ne(old,w,b,sz,n,mode); else r=f_update_crc_ne(&old,&w,b,&sz,&n,&mode);
  if(w==16||w==24||w==32){ VP_ASSERT(g_calls==1&&g_w==w,"the stated width is used"); VP_ASSERT(g_in==(mode==0?init:(old&lim)),"the checksum continues from the previous value, or starts afresh"); VP_ASSERT(g_p==(void*)b&&g_len==(unsigned long)sz*n,"all bytes of all tokens are used"); VP_ASSERT(g_mask==(sz>1?sz-1:0),"multi-byte tokens are taken most significant byte first"); VP_ASSERT(r==(mode==2?(g_r^fin):g_r),"the result is the running checksum, finalised on request only"); }
  else VP_ASSERT(r==old&&g_calls==0,"an unknown width leaves the checksum alone"); VP_REACH("end"); }'''
    t = re.sub(r"crc(16|24|32)_t\s+crc\1_(update|update_le)\s*\([^;{}]*\)\s*;", "", t)
    i = t.index("update_crc_ne")
    # contracts of the three widths go before the first use
    k = t.rindex(";", 0, i) if ";" in t[:i] else 0
    run_cbmc(ctx, "update_crc_ne", pre + "typedef unsigned long size_t;\n".replace("typedef unsigned long size_t;\n", "") + st + t + h, "update_crc_ne f_update_crc_ne")


def ansi(t, fn):
    """K&R parameter list -> ANSI"""
    m = re.search(r"\b%s\s*\(([\w\s,]*)\)\s*((?:[^;{}()]+;\s*)+)\{" % fn, t)
    if not m:
        return t
    decl = {re.search(r"(\w+)\s*$", d).group(1): d.strip() for d in m.group(2).split(";") if d.strip()}
    return t[:m.start()] + fn + "(" + ", ".join(decl[p.strip()] for p in m.group(1).split(",")) + ") {" + t[m.end():]


def zlib(ctx):
    t = ansi(cpp(f"{REPO}/src/primitives/crc32.c"), "crc32")
    fn = "crc32"
    inv = ["g_i<=g_n&&len==(unsigned)(g_n-g_i)", "buf==g_d+g_i", "crc==g_ref"]
    kw = dict(ptr={"buf": "g_i=vp_ulong(); VP_ASSUME(g_i<=g_n); buf=g_d+g_i;"}, extra="g_ref=vp_uint();")
    L = [Loop(inv, sel=r"len >= 8", pre="g_i=0;g_ref=crc;", ghost_out="g_ref=step(g_ref,g_d[g_i]); g_i++;" * 8, name="eight", **kw), Loop(inv + ["len>0"], sel=r"--len", ghost_out="g_ref=step(g_ref,g_d[g_i]); g_i++; if(len==1) g_last=1;".replace("if(len==1) g_last=1;", ""), name="one", **kw)]
    c = split(cut_loops(t, fn, L), tblstep(32))
    h = r'''int main(){ unsigned n=vp_uint(); g_n=n; g_d=malloc(g_n); unsigned c=vp_uint(); unsigned r=f_crc32(&c,g_d,&n); VP_ASSERT(g_i==g_n,"every byte is used exactly once, in order"); VP_ASSERT(r==~g_ref,"the result is the complement of the fold of the byte step"); VP_REACH("end"); }'''
    run_cbmc(ctx, "f_crc32", PRELUDE + G + c + h, "crc32 (crc32.c) f_crc32", opts=["--pointer-check"])
    h = r'''int main(){ unsigned c=vp_uint(); unsigned char b=vp_uchar(); VP_ASSERT(step(c,b)==bitstep(c,b),"lemma: a table step is the remainder of eight polynomial divisions"); unsigned x=5; VP_ASSERT(f_crc32(&c,0,&x)==0,"no data"); VP_REACH("end"); }'''
    run_cbmc(ctx, "table zlib", PRELUDE + G + split(t, tblstep(32)) + bitstep(32) + h, "crc_table (crc32.c)")


def run(ctx):
    ctx.under_contract(*[f"crc{w}_update{s}" for w in W for s in ("", "_le")], "update_crc_ne", "f_update_crc_ne", "crc32", "f_crc32")
    ctx.assume("buffers below 2^40 bytes (2^31 for the token form: datasiz*datalen must not overflow int); token sizes 1, 2, 4, 8; little-endian machine", "a fold over consecutive pieces is the fold over the whole (definition of fold)")
    ctx.trusted += TB_C
    P = f"{REPO}/src/primitives/"
    ctx.parallel([("native", lambda: native(ctx, "crc", [(lambda s=s: ctx.cobj(P + s)) for s in ("crc16_.c", "crc24_.c", "crc32_.c", "crc_16_24_32.c", "crc32.c")]))] +
                 [(f"crc{w}", lambda w=w: upd(ctx, w)) for w in W] + [("top", lambda: top(ctx)), ("zlib", lambda: zlib(ctx))])
    return "proof", "each update is the fold of one byte step over the data (any length), the step is the polynomial remainder for every checksum and byte, and is injective in both; piecewise updating and single-byte detection follow"
