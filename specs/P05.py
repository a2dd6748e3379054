"""compact_float / compact_double: packed reals of standard files (types 1, 129 and the packed part of their records)."""
from specs.packint import *
from specs.common import *

SRCF = f"{REPO}/src/packers/compact.c"
INC = ["-I" + REPO + "/include"]

G = r'''
static int g_it,g_cur,g_k,g_t,g_n,g_nb,g_E,g_off,g_pos,g_end,g_words,g_seen; static unsigned g_bit,g_qbit,g_tok; static int g_q; static unsigned *g_hp; static unsigned g_h0,g_h1,g_h2,g_h3w; static double g_mk,g_lo,g_hi,g_x; static int g_fpow_bad;
static inline unsigned g_view(unsigned*a,int cur,unsigned last,int space,int q){ int w=q>>5; unsigned v= (w==cur && space<32)? (last<<space):a[w]; return (v>>(31-(q&31)))&1u; }
static inline unsigned g_mask(void){ return 0xffffffffu>>(32-g_nb); }
typedef union { double d; unsigned long u; } vp_du; typedef union { float f; unsigned u; } vp_fu;
static double vp_p2(int i){ vp_du x; x.u=(unsigned long)(i+1023)<<52; return x.d; }
static int vp_dexp(double d){ vp_du x; x.d=d; return (int)((x.u>>52)&0x7ff); }
static int vp_fin(double d){ return vp_dexp(d)!=0x7ff; }
/* contract of f_pow: two to the power i, exactly */
double f_pow_(double*b,int*i){ VP_ASSERT(*b==2.0&&*i>=-1022&&*i<=1023,"a power of two in range"); VP_ASSUME(*i>=-1022&&*i<=1023); return vp_p2(*i); }
/* exponent of the step: the smallest power of two above the range, over 2**nb; 0 for a field without range */
static int vp_e(double range){ double r=range*2; int x=vp_dexp(r); return x==0?0:x-1023; }
/* what the header says of the minimum: 24 bits of mantissa, zero below 2**-127, denormalized between 2**-127 and 2**-126 */
static float vp_hmin(unsigned h1,unsigned h2){ vp_fu x; unsigned e=(h1>>4)&0xfff; if(h2==0||e<849) return 0; x.u=(h1&1)<<31|(e==849?(h2>>9)&0x7fffff:((e-849)&255)<<23|((h2>>8)&0x7fffff)); return x.f; }
'''


def text(ctx, fn):
    def go():
        t = cpp(SRCF)
        # an observation point between the computation of a token and its insertion
        s, b, e = find_func(t, fn)
        body = t[b:e + 1]
        body, k = re.subn(r"\{\s*if\s*\(\s*spaceInLastWord\s*>=", "VP_FIT(tempInt,arrayOfFloat[i],minFloat) \\g<0>", body)
        body, k2 = re.subn(r"\*\s*arrayPtr\s*=\s*tempInt\s*;", "VP_FIT(tempInt,arrayOfFloat[i],minFloat) \\g<0>", body)
        if k != 1 or k2 != 1:
            raise ToolError("insertion of tokens not recognised")
        return t[:b] + body + t[e + 1:]
    return ctx._once("P05" + fn, go)


KEEPH = "packHeader==g_hp&&g_hp[0]==g_h0&&g_hp[1]==g_h1&&g_hp[2]==g_h2"
FIT = r'''
static unsigned vp_token(double x,double mn){ return (unsigned)(long)((x-mn)*vp_p2(g_nb-g_e)); }
#define VP_FIT(tok,x,mn) { VP_ASSERT((tok)<=g_mask(),"a token fits its width"); VP_ASSUME((tok)<=g_mask()); if(g_it==g_k){ g_seen=1; g_pos=g_cur+g_t; g_tok=(tok); g_bit=((tok)>>(g_E-1-g_t))&1u; VP_ASSERT(g_tok==vp_token(x,mn),"the token is the distance to the minimum in steps, truncated"); VP_ASSERT((x-mn)*vp_p2(g_nb-g_e)>=0&&(x-mn)*vp_p2(g_nb-g_e)<vp_p2(g_nb),"the distance is within the range of tokens"); } }
'''
ELT = "VP_ASSUME(minFloat<=(double)arrayOfFloat[i]&&(double)arrayOfFloat[i]<=maxFloat);"


def loops_pack(T):
    mm = Loop(["g_it>=1&&g_it<=g_n&&i>=0", "minFloat<=maxFloat", "g_lo<=minFloat&&maxFloat<=g_hi", "!(g_k<g_it)||(minFloat<=g_mk&&g_mk<=maxFloat)"], sel=r"arrayOfFloat\[i\] < minFloat",
              pre="g_it=1; VP_ASSUME(g_lo<=(double)arrayOfFloat[0]&&(double)arrayOfFloat[0]<=g_hi); if(g_k==0) g_mk=arrayOfFloat[0];",
              ghost_in="VP_ASSUME(g_lo<=(double)arrayOfFloat[i]&&(double)arrayOfFloat[i]<=g_hi); if(g_it==g_k) g_mk=arrayOfFloat[i];", ghost_out="g_it++;", extra="g_it=vp_int(); if(g_k>=1){ double h; g_mk=h; }",
              lemma="VP_ASSUME((i<(long)g_n*stride)==(g_it<g_n)); VP_ASSUME((i<floatCount*stride)==(g_it<g_n));".replace("VP_ASSUME((i<(long)g_n*stride)==(g_it<g_n)); ", ""), name="extremes")
    pre = ("g_it=0;g_cur=g_off;g_seen=0; VP_ASSERT(minFloat<=g_mk&&g_mk<=maxFloat,\"the extremes bound every element\"); VP_ASSERT(g_lo<=minFloat&&maxFloat<=g_hi,\"the extremes are those of the data\"); g_mn=minFloat; g_mx=maxFloat; g_e=vp_e(maxFloat-minFloat); g_h0=packHeader[0]; g_h1=packHeader[1]; g_h2=packHeader[2]; g_h3w=packHeader[3];"
           " VP_ASSUME(maxFloat==minFloat||maxFloat-minFloat>=1e-270); VP_ASSERT(mulFactor==vp_p2(g_nb-g_e),\"the scale is the power of two that makes the range fill the tokens\"); mulFactor=vp_p2(g_nb-g_e);")
    lem = "VP_ASSUME((i<floatCount*stride)==(g_it<g_n)); VP_ASSUME(g_it>=g_n?g_cur==g_end:g_cur+g_E<=g_end);"
    ext = "g_it=vp_int();g_cur=vp_int();g_pos=vp_int();g_bit=vp_uint();g_tok=vp_uint();g_seen=vp_int();"
    tk = ["g_seen==(g_k<g_it)", "!(g_k<g_it)||(g_pos>=g_off&&g_pos<g_cur)", KEEPH]
    sh = Loop(["g_it>=0&&g_it<=g_n&&i>=0", "spaceInLastWord>=0&&spaceInLastWord<=32", "g_cur>=g_off&&g_cur<=g_end", "lastSlot>=0&&(lastSlot<g_words||(lastSlot==g_words&&spaceInLastWord==32))", "32*lastSlot+32-spaceInLastWord==g_cur", "arrayPtr==&arrayOfInt[lastSlot]"] + tk +
              ["!(g_k<g_it)||g_view(arrayOfInt,lastSlot,lastWordShifted,spaceInLastWord,g_pos)==g_bit", "!(g_q<g_off)||g_view(arrayOfInt,lastSlot,lastWordShifted,spaceInLastWord,g_q)==g_qbit", "!((g_q>>5)>=lastSlot&&g_q>=g_off)||g_view(arrayOfInt,lastSlot,0,32,g_q)==g_qbit"],
              sel=r"spaceInLastWord >= Effective", ptr={"arrayPtr": "{unsigned x; arrayPtr=arrayOfInt+x;}"}, mem={"arrayPtr": "__CPROVER_havoc_object(arrayOfInt);"}, pre=pre + " if(g_q<g_off) g_qbit=g_view(arrayOfInt,0,0,32,g_q);",
              ghost_in=ELT, ghost_out="g_it++;g_cur+=g_E;", extra=ext, lemma=lem, name="tokens")
    dc = Loop(["g_it>=0&&g_it<=g_n&&i>=0", "g_cur==g_off+32*g_it&&g_cur<=g_end", "arrayPtr==arrayOfInt+(g_cur>>5)"] + tk +
              ["!(g_k<g_it)||g_view(arrayOfInt,0,0,32,g_pos)==g_bit", "!(g_q<g_off||g_q>=g_end)||g_view(arrayOfInt,0,0,32,g_q)==g_qbit"],
              sel=r"\*arrayPtr = tempInt", ptr={"arrayPtr": "{unsigned x; arrayPtr=arrayOfInt+x;}"}, mem={"arrayPtr": "__CPROVER_havoc_object(arrayOfInt);"}, pre=pre,
              ghost_in=ELT, ghost_out="g_it++;g_cur+=32;", extra=ext, lemma=lem, name="words")
    return mm, sh, dc


def pack_job(ctx, T, nb, eff, style, al=None):
    fn = "compact_" + T
    E = eff or nb
    mm, sh, dc = loops_pack(T)
    t = cut_loops(text(ctx, fn), fn, [mm, sh, dc])
    hd = "g_pk" if style == 1 else "g_hd"
    h = f'''
int main(){{ int n=vp_int(),off=vp_int(),st=vp_int(); {NOBIG} {"off=24;" if style == 1 else "off=0;" if eff else "" if al is None else f"VP_ASSUME(((off&31)==0)=={int(al)});"} g_n=n; g_nb={nb}; g_E={E}; g_off=off; g_end=vp_int(); VP_ASSUME(g_end>=off+{E}&&g_end<(1<<30)); {"if((off&31)==0) VP_ASSUME((g_end&31)==0);" if E == 32 else ""} g_words=(g_end+31)>>5;
 powerOf2sInitialized=1; powerOf2s[g_nb]=vp_p2(g_nb); powerOf2s[28]=vp_p2(28); {T} tag; static unsigned g_hd[4];
 {T}*src=malloc(sizeof({T})*(unsigned long)vp_uint()); unsigned*g_pk=malloc(4ul*(g_words+{3 if style == 1 else 0})); unsigned*s=g_pk+{3 if style == 1 else 0}; g_hp={hd}; for(int j=0;j<4;j++) g_hp[j]=vp_uint();
 g_k=vp_int(); g_t=vp_int(); VP_ASSUME(g_k>=0&&g_k<n&&g_t>=0&&g_t<g_E); g_q=vp_int(); VP_ASSUME(g_q>=0&&g_q<32*g_words&&(g_q<off||g_q>=g_end)); g_qbit=g_view(s,0,0,32,g_q);
 {{ double l,u; g_lo=l; g_hi=u; }} VP_ASSUME(g_lo>=-1.0e+38&&g_hi<=1.0e+38); 
 void*r={fn}(src,g_hp,s,n,{nb + 64 * eff if eff else nb},off,st,1,0,&tag);
 VP_ASSERT(r==(void*)s,"returns the packed array"); VP_ASSERT(g_seen==1,"every element is packed"); VP_ASSERT(g_view(s,0,0,32,g_pos)==g_bit,"every bit of every token is in the stream at offset+k*width"); VP_ASSERT(g_view(s,0,0,32,g_q)==g_qbit,"bits outside the packed span are unchanged");
 VP_ASSERT(g_hp[0]==({'0x7ffu' if style == 1 else '0xfffu'}<<20|(n&0xfffff)),"the header carries its mark and the count"); {'if(g_q<24) VP_ASSERT(g_view(s,0,0,32,g_q)==((((unsigned)g_nb<<8)>>(31-g_q))&1u),"the header carries the width");' if style == 1 else 'VP_ASSERT(g_hp[3]==((unsigned)g_nb<<8|(unsigned)n>>20),"the header carries the width and the rest of the count");'}
 VP_ASSERT((int)(g_hp[1]>>16)-4096==g_e-g_nb,"the header carries the exponent of the step"); VP_ASSERT(((g_hp[1]>>1)&7)==0,"the sign field holds the sign only");
 float m=vp_hmin(g_hp[1],g_hp[2]); double am=g_mn<0?-g_mn:g_mn,ah=m<0?-(double)m:m; if(am<vp_p2(-127)) VP_ASSERT(m==0,"a vanishing minimum is written as zero"); else {{ VP_ASSERT(((double)m<0)==(g_mn<0)&&ah<=am,"the minimum of the header is the minimum, truncated"); vp_du x,y; x.d=am; y.d=ah; if(am>=vp_p2(-126)) VP_ASSERT(y.u==(x.u&~0x1ffffffful),"its 24 leading bits are kept"); else VP_ASSERT(am-ah<vp_p2(-149),"down to the last bit of a denormalized number"); }}
 VP_REACH("end"); }}'''
    fit = FIT.replace("(unsigned)(long)(", "(unsigned)(") if al else FIT   # the direct copy converts without the intermediate
    txt = insert_before(t, fn, PRELUDE + G + "static int g_e; static double g_mn,g_mx;\n" + fit)
    run_cbmc(ctx, f"{fn} pack nbits={nb}{f' in {eff}' if eff else ''}, header {style}{'' if al is None else ', whole words' if al else ', across words'}", txt + h, fn, unwind=67, timeout=260)


def unpack_job(ctx, T, nb, eff, style):
    fn = "compact_" + T
    E = eff or nb
    L = Loop(["g_it>=0&&g_it<=g_n&&i>=0", "bitPackInFirstWord>=1&&bitPackInFirstWord<=32", "g_cur>=g_off&&g_cur<=g_end", "g_slot>=0&&g_slot<g_words&&32*g_slot+32-bitPackInFirstWord==g_cur", "arrayPtr==arrayOfInt+g_slot", "currentWord==(arrayOfInt[g_slot]<<(32-bitPackInFirstWord))", "g_seen==(g_k<g_it)",
              "!(g_k<g_it)||vp_same(arrayOfFloat[g_ki],g_out)", "!(g_k<g_it)||(g_ki>=0&&g_ki<i)"],
             sel=r"packInt", ptr={"arrayPtr": "{unsigned x; arrayPtr=arrayOfInt+x;}"}, mem={"arrayOfFloat": "__CPROVER_havoc_object(arrayOfFloat);"},
             pre='g_it=0;g_cur=g_off;g_slot=g_off>>5;g_seen=0; VP_ASSERT(vp_same(minFloat,(double)g_m),"the minimum is that of the header"); VP_ASSERT(mulFactor==vp_p2(g_s),"the step is that of the header"); VP_ASSUME(minFloat==minFloat);',
             ghost_in="if(g_it==g_k){ g_seen=1; g_pos=g_cur+g_t; g_ki=i; }",
             ghost_out=f'''if(g_it==g_k){{ g_out=arrayOfFloat[g_ki]; VP_ASSERT(((packInt>>(g_E-1-g_t))&1u)==g_view(arrayOfInt,0,0,32,g_pos),"a token read carries the bits at its position"); VP_ASSERT(g_E==32||(packInt>>g_E)==0,"and no other"); if(packInt==0) VP_ASSERT(vp_same(g_out,({T})minFloat),"token zero is the minimum"); else VP_ASSERT(vp_same(g_out,({T})((packInt*mulFactor)*1.0000000000001+minFloat)),"a token is that many steps above the minimum"); }} g_it++;g_cur+=g_E;g_slot=arrayPtr-arrayOfInt;''',
             extra=f"g_it=vp_int();g_cur=vp_int();g_pos=vp_int();g_slot=vp_int();g_ki=vp_int();g_seen=vp_int();{{{T} h; g_out=h;}}", lemma="VP_ASSUME((i<intCount*stride)==(g_it<g_n)); VP_ASSUME(g_it>=g_n?g_cur==g_end:g_cur+g_E<=g_end);", name="tokens")
    t = cut_loops(text(ctx, fn), fn, [L])
    h = f'''
int main(){{ int n=vp_int(),off=vp_int(),st=vp_int(); {NOBIG} {"off=24;" if style == 1 else "off=0;" if eff else ""} g_n=n; g_nb={nb}; g_E={E}; g_off=off; g_end=vp_int(); VP_ASSUME(g_end>=off+{E}&&g_end<(1<<30)); g_words=((g_end+31)>>5)+1;
 powerOf2sInitialized=1; {T} tag; {T}*out=malloc(sizeof({T})*(unsigned long)vp_uint()); unsigned*pk=malloc(4ul*g_words); static unsigned hd[4]; hd[0]=(unsigned){'0x7ff' if style == 1 else '0xfff'}<<20|(n&0xfffff); hd[1]=vp_uint(); hd[2]=vp_uint(); hd[3]=(unsigned)g_nb<<8|{'(vp_uint()&255)' if style == 1 else '(unsigned)n>>20'}; g_s=(int)(hd[1]>>16)-4096; VP_ASSUME(g_s>=-1022&&g_s<=200); VP_ASSUME(((hd[1]>>1)&7)==0&&((hd[1]>>4)&0xfff)<849+255); {"{ int o=vp_int(); if(o) hd[0]^=o&0xfffff; }" if style == 1 else ""} g_m=vp_hmin(hd[1],hd[2]); unsigned h0=hd[0],h1=hd[1],h2=hd[2],h3=hd[3];
 g_k=vp_int(); g_t=vp_int(); VP_ASSUME(g_k>=0&&g_k<n&&g_t>=0&&g_t<g_E);
 void*r={fn}(out,hd,pk,n,{nb + 64 * eff if eff else nb},off,st,2,0,&tag); VP_ASSERT(r==(void*)out,"returns the field"); VP_ASSERT(g_seen==1,"every element is unpacked"); VP_ASSERT(vp_same(out[g_ki],g_out),"an unpacked element is not overwritten"); VP_ASSERT(hd[0]==h0&&hd[1]==h1&&hd[2]==h2&&hd[3]==h3,"the header is not changed"); VP_REACH("end"); }}'''
    gh = G + f"static {T} g_out; static int g_slot,g_ki,g_s; static float g_m; static int vp_same(double a,double b){{ vp_du x,y; x.d=a; y.d=b; return x.u==y.u; }}\n#define VP_FIT(a,b,c)\n"
    run_cbmc(ctx, f"{fn} unpack nbits={nb}{f' in {eff}' if eff else ''}, header {style}", insert_before(t, fn, PRELUDE + gh) + h, fn, unwind=67, timeout=260)


def table_job(ctx):
    t = text(ctx, "compact_float")
    h = '''int main(){ double x[2],tag=0; unsigned hd[4],p[4]; int k=vp_int(); VP_ASSUME(k>=0&&k<65); void*r=compact_float(x,hd,p,1,8,0,1,77,0,&tag); VP_ASSERT(r==0,"an unknown operation is refused"); VP_ASSERT(powerOf2sInitialized==1&&powerOf2s[k]==vp_p2(k),"the table holds the powers of two"); VP_REACH("end"); }'''
    run_cbmc(ctx, "table of powers", insert_before(t, "compact_double", PRELUDE + G + "#define VP_FIT(a,b,c)\n") + h, "compact_float", unwind=67, timeout=120)


def bound_lemma(ctx):
    """|read back - written| over the reals, every rounding a bounded error term (u: 2^-53 of doubles, w: of the element type)."""
    for T, w in (("float", "(/ 1.0 16777216.0)"), ("double", "(/ 1.0 9007199254740992.0)")):
        u = "(/ 1.0 9007199254740992.0)"
        ab = lambda x: f"(ite (>= {x} 0.0) {x} (- {x}))"
        txt = "(set-logic QF_LRA)\n" + "".join(f"(declare-const {v} Real)\n" for v in "a m m1 s d p q r o e1 e2 e3 e4 mm".split()) + "".join(f"(assert {x})\n" for x in (
            "(> s 0.0)", "(>= a m)",
            f"(<= {ab('e1')} (* {u} (- a m)))", "(= d (+ (- a m) e1))",          # the difference, rounded
            "(>= p 0.0)", "(<= p d)", "(< d (+ p s))",                            # p = token * step, exact
            f"(<= {ab('e2')} (* 0.0000000000002 p))", "(= q (+ p e2))",           # times 1.0000000000001, rounded
            f"(<= {ab('(+ q m1)')} mm)",
            f"(<= {ab('e3')} (* {u} mm))", "(= r (+ q m1 e3))",                   # plus the minimum of the header
            f"(<= {ab('e4')} (* {w} {ab('r')}))", "(= o (+ r e4))",               # stored
            f"(not (<= {ab('(- o a)')} (+ s {ab('(- m m1)')} (* 0.000000000001 (- a m)) (* 2.0 {w} mm) (* 2.0 {u} mm))))")) + "(check-sat)\n"
        smt.prove(ctx, f"lemma: error of one {T} below one step, the truncation of the minimum and rounding", txt, "lemma", 60)


def run(ctx):
    ctx.trusted += TB_C + ["z3/cvc5 for the integer and real lemmas"]
    ctx.under_contract("compact_float (pack, unpack)", "compact_double (pack, unpack)")
    ctx.assume("element count 1..2^24-1, bit offset 0..2^20-1, stride 1..64, non-overlapping buffers of sufficient size; one readable word follows the packed stream",
               "f_pow returns the exact power of two (Fortran 2.d0**i)", "finite values not above 1e38 (the packer stops the program otherwise); double fields: a range that is zero or at least 1e-270",
               "token widths: quick tier a sample, thorough 1..32, each width a separate set of obligations; without missing-value tag (its handling is covered by the native oracle only; c_fstecr never uses it)",
               "rounding errors of double and float operations are at most half a unit in the last place (IEEE); numbers below the smallest normal one excepted")
    combos = [("float", 12, 0, 1), ("float", 16, 16, 2), ("float", 24, 0, 2), ("float", 32, 0, 1), ("double", 16, 0, 1)]
    if ctx.thorough:
        combos = [(T, nb, eff, style) for nb in range(1, 33) for T in ("float", "double") for eff, style in ((0, 1), (0, 2)) + (((16, 2),) if nb <= 16 else ())]
    jobs = [("native", lambda: native(ctx, "pakfloat", [lambda: ctx.cobj(SRCF, extra=INC)])), ("lemmas", lambda: lemmas(ctx)), ("bound", lambda: bound_lemma(ctx)), ("table", lambda: table_job(ctx))]
    for T, nb, eff, style in combos:
        for al in ((False, True) if (nb, style) == (32, 2) else (None,)):
            jobs.append((f"p{T}{nb}e{eff}s{style}{al or ''}", lambda T=T, nb=nb, eff=eff, style=style, al=al: pack_job(ctx, T, nb, eff, style, al)))
        jobs.append((f"u{T}{nb}e{eff}s{style}", lambda T=T, nb=nb, eff=eff, style=style: unpack_job(ctx, T, nb, eff, style)))
    ctx.parallel(jobs)
    return "proof", "header, token and position contracts on the real packer and unpacker of reals for any element count, offset and stride, one obligation set per width; error bound as a real-arithmetic lemma over both"
