from specs.common import *

SRC = f"{REPO}/src/packers/float_packer.c"
G = r'''
typedef union { float f; int i; unsigned u; } vp_fi;
static float *g_s; static int *g_d; static float *g_o; static int g_n,g_it,g_k,g_q,g_qv,g_seen,g_nb; static int g_h[4],g_tok; static unsigned g_x;
static inline unsigned vp_bits(float f){ vp_fi t; t.f=f; return t.u; }
static inline int vp_exp(unsigned u){ return (u>>23)&0xFF; }
static inline int vp_fin(float f){ return vp_exp(vp_bits(f))!=255; }
/* value of x in units of the last mantissa bit at exponent e, truncated; zero and denormalized numbers count as zero */
static inline int vp_man(unsigned u,int e){ int x=vp_exp(u),s=e-x,m; if(x==0) return 0; if(s>31) s=31; m=(int)((1u<<23)|(u&0x7FFFFF))>>s; return u>>31?-m:m; }
static inline int vp_tok(unsigned u,int e,int min,int sh,int nb){ int m=vp_man(u,e)-min+((1<<sh)>>1); m>>=sh; return m>(1<<nb)-1?(1<<nb)-1:m; }
/* mantissa restored from a token */
static inline int vp_res(int tok,int min,int sh){ int m=(tok<<sh)+min; if(m>0xFFFFFF) m=0xFFFFFF; if(m<-0xFFFFFF) m=-0xFFFFFF; return m; }
/* u is the float of value m * 2**(e-150), 1<=e<=254, |m|<2**24 */
static inline int vp_is(unsigned u,int m,int e){ int x=vp_exp(u),a=m<0?-m:m,f=u&0x7FFFFF,z=x?x:1; if(x) f|=1<<23; if(a==0) return (u&0x7FFFFFFF)==0; return (u>>31)==(m<0) && z<=e && e-z<=23 && f==a<<(e-z); }
static inline int vp_half(int*d,int k){ return (((unsigned)d[k>>1])>>(k&1?0:16))&0xFFFF; }
'''
HDR = "int e=(g_h[0]>>8)&255,sh=g_h[0]&255,min=g_h[1];"


def d_pack(ctx):
    pack(ctx, cpp(SRC))


def pack(ctx, t):
    fn = "float_packer_1"
    L1 = Loop(["g_it>=0&&g_it<=g_n&&n==g_n-g_it", "z==g_s+g_it", "vp_fin(fmin.f)&&vp_fin(fmax.f)&&fmin.f<=fmax.f", "!(g_k<g_it)||(fmin.f<=g_s[g_k]&&g_s[g_k]<=fmax.f)"],
              sel=r"fmin\.f = ", ptr={"z": "{unsigned x; z=g_s+x;}"}, pre="g_it=0;", ghost_in="VP_ASSUME(vp_fin(g_s[g_it]));", ghost_out="g_it++;", extra="g_it=vp_int();fmin.i=vp_int();fmax.i=vp_int();", name="extremes")
    L2 = Loop(["Shift2>=0&&Shift2<=25", "Maximum==g_rng>>Shift2", "Round==1<<Shift2", "Shift2==0||(g_rng>>(Shift2-1))>Mask"], sel=r"Shift2\+\+|Shift2 =|Round", pre="int g_rng=Maximum; VP_ASSERT(g_rng>=0&&g_rng<=0x1FFFFFE,\"the mantissa range is not negative and fits 25 bits\");", name="step")
    L3 = Loop(["g_it>=0&&g_it<=g_n&&n==g_n-g_it", "intsrc==(int*)g_s+g_it", "Store==(g_it&1)", "stream==g_d+(g_it>>1)", "g_seen==(g_k<g_it)", "g_d[g_q]==g_qv", "!(g_k<g_it)||g_tok==vp_tok(g_x,(header[0]>>8)&255,header[1],header[0]&255,g_nb)",
               "!(g_k<g_it)||((g_k>>1)<(g_it>>1)?vp_half(g_d,g_k)==g_tok:(Accu&0xFFFF)==g_tok)", "!((g_it&1)&&g_k<g_it&&g_k+1<g_it)||(g_k>>1)<(g_it>>1)"],
              sel=r"stream\+\+ =", ptr={"intsrc": "{unsigned x; intsrc=(int*)g_s+x;}", "stream": "{unsigned x; stream=g_d+x;}"}, mem={"stream": "__CPROVER_havoc_object(g_d);"}, pre="g_it=0;g_seen=0; VP_ASSERT(fmin.f<=g_s[g_k]&&g_s[g_k]<=fmax.f,\"the extremes bound element k, whichever it is\");",
              ghost_in="VP_ASSUME(vp_fin(g_s[g_it])&&fmin.f<=g_s[g_it]&&g_s[g_it]<=fmax.f); if(g_it==g_k){ g_seen=1; g_tok=vp_tok(vp_bits(g_s[g_k]),(header[0]>>8)&255,header[1],header[0]&255,g_nb); }", ghost_out="g_it++;", extra="g_it=vp_int();g_seen=vp_int();g_tok=vp_int();", name="tokens")
    c = cut_loops(t, fn, [L1, L2, L3])
    h = f'''int main(){{ int n=vp_int(),nb=vp_int(); VP_ASSUME(n>=1&&n<(1<<28)); VP_ASSUME(nb>=1&&nb<=16); g_n=n; g_nb=nb; g_s=malloc(4ul*n); g_d=malloc(4ul*((n+1)/2)+8); g_k=vp_int(); VP_ASSUME(g_k>=0&&g_k<n); g_q=vp_int(); VP_ASSUME(g_q>=(n+1)/2&&g_q<(n+1)/2+2); g_qv=g_d[g_q]; VP_ASSUME(vp_fin(g_s[0])); VP_ASSUME(vp_fin(g_s[g_k])); g_x=vp_bits(g_s[g_k]);
  int h0=vp_int(),h2=vp_int(); VP_ASSUME((h0&0xFFFF)==0); g_h[0]=h0; g_h[2]=h2; int rc={fn}(g_s,nb,g_h,g_d,n); {HDR}
  VP_ASSERT(rc==0,"packing succeeds"); VP_ASSERT((g_h[0]&0xFFFF0000)==h0&&g_h[2]==h2,"the rest of the header is kept"); VP_ASSERT(e<=254&&sh<=25,"exponent and shift of the header fit their fields");
  VP_ASSERT(g_seen&&vp_half(g_d,g_k)==vp_tok(g_x,e,min,sh,nb),"token k is the rounded, capped distance of element k to the minimum");
  int m=vp_man(g_x,e); VP_ASSERT(vp_exp(g_x)<=e,"no element has a larger exponent than the block"); VP_ASSERT(m>=min&&((m-min)>>sh)<=(1<<nb)-1,"every element is within the range the token covers");
  VP_ASSERT(min>=-0xFFFFFF&&min<=0xFFFFFF,"the minimum is a mantissa"); VP_ASSERT(g_d[g_q]==g_qv,"nothing past the stream is written"); VP_ASSERT(vp_bits(g_s[g_k])==g_x,"the source is unchanged"); VP_REACH("end"); }}'''
    run_cbmc(ctx, "float_packer_1", PRELUDE + G + c + h, fn)


def unpack(ctx, t):
    fn = "float_unpacker_1"
    # value of one token, in the loop body, for every header
    Z = Loop(["g_it>=0&&g_it<=g_n&&nbVals==g_n-g_it", "dest==g_o+g_it", "!(g_k<g_it)||(vp_bits(g_o[g_k])&0x7FFFFFFF)==0", "vp_bits(g_o[g_q])==(unsigned)g_qv"], sel=r"^\s*while\s*\([^)]*\)\s*\*dest\+\+ = 0", ptr={"dest": "{unsigned x; dest=g_o+x;}"},
             mem={"dest": "__CPROVER_havoc_object(g_o);"}, pre="g_it=0;", ghost_out="g_it++;", extra="g_it=vp_int();", name="zeros")
    L = Loop(["g_it>=0&&g_it<=g_n&&nbVals==g_n-g_it", "dest==g_o+g_it", "fetch==(g_it&1)", "stream==g_d+(g_it>>1)+1", "accu==(int)(((unsigned)g_d[g_it>>1])<<(16*(g_it&1)))", "vp_bits(g_o[g_q])==(unsigned)g_qv", "!(g_k<g_it)||vp_is(vp_bits(g_o[g_k]),vp_res(vp_half(g_d,g_k),minimum,shift2),maxExp)"],
             sel=r"mantis", ptr={"dest": "{unsigned x; dest=g_o+x;}", "stream": "{unsigned x; stream=g_d+x;}"}, mem={"dest": "__CPROVER_havoc_object(g_o);"}, pre="g_it=0;", ghost_in="VP_ASSUME((((long)vp_half(g_d,g_it))<<shift2)<=0x3FFFFFF);", ghost_out="g_it++;", extra="g_it=vp_int();temp.i=vp_int();temp2.i=vp_int();", name="values")
    c = cut_loops(t, fn, [Z, L])
    h = f'''int main(){{ int n=vp_int(); VP_ASSUME(n>=1&&n<(1<<28)); g_n=n; g_o=malloc(4ul*n+8); g_d=malloc(4ul*((n+1)/2)+4); g_k=vp_int(); VP_ASSUME(g_k>=0&&g_k<n); g_q=vp_int(); VP_ASSUME(g_q>=n&&g_q<n+2); g_qv=vp_bits(g_o[g_q]); g_h[0]=vp_int(); g_h[1]=vp_int(); g_h[2]=vp_int(); {HDR} VP_ASSUME(e<=254&&sh<=25&&min>=-0xFFFFFF&&min<=0xFFFFFF);
  int rc={fn}(g_o,g_h,g_d,n); VP_ASSERT(rc==n-g_h[2],"the return value is the discrepancy of the number of points"); unsigned u=vp_bits(g_o[g_k]); VP_ASSERT(vp_bits(g_o[g_q])==(unsigned)g_qv,"nothing past the destination is written");
  if(rc==0) VP_ASSERT(e==0?(u&0x7FFFFFFF)==0:vp_is(u,vp_res(vp_half(g_d,g_k),min,sh),e),"element k is the exact float of minimum plus token times step"); VP_REACH("end"); }}'''
    run_cbmc(ctx, "float_unpacker_1", PRELUDE + G + c + h, fn)


def lemma(ctx):
    h = '''int main(){ int e=vp_int(),min=vp_int(),sh=vp_int(),nb=vp_int(); unsigned u=vp_uint(); VP_ASSUME(e>=1&&e<=254); VP_ASSUME(vp_exp(u)<=e); VP_ASSUME(nb>=1&&nb<=16); VP_ASSUME(sh>=0&&sh<=25); VP_ASSUME(min>=-0xFFFFFF&&min<=0xFFFFFF);
  int m=vp_man(u,e); VP_ASSUME(m>=min&&((m-min)>>sh)<=(1<<nb)-1); int t=vp_tok(u,e,min,sh,nb); VP_ASSERT(t>=0&&t<=0xFFFF&&t<=(1<<nb)-1,"tokens fit the requested number of bits"); VP_ASSERT((((long)t)<<sh)<=0x3FFFFFF,"a token times the step fits 26 bits"); int r=vp_res(t,min,sh),d=r-m; VP_ASSERT(d<(1<<sh)&&-d<(1<<sh),"the restored mantissa is less than one step away");
  int s=e-vp_exp(u); if(vp_exp(u)&&s<=31){ long x=(1<<23)|(u&0x7FFFFF),a=m<0?-m:m; VP_ASSERT(x-(a<<s)>=0&&x-(a<<s)<(1l<<s),"alignment truncates less than one unit"); } VP_REACH("end"); }'''
    run_cbmc(ctx, "one step", PRELUDE + G + h, "lemma")


def entry(ctx, t):
    t1 = replace_body(t, "float_packer_1", "{ g_called++; g_args[0]=nbits; g_args[1]=npts; g_p[0]=source; g_p[1]=header; g_p[2]=stream; g_args[2]=header[0]; return 0; }")
    t1 = replace_body(t1, "float_unpacker_1", "{ g_called++; g_args[1]=npts; g_p[0]=dest; g_p[1]=header; g_p[2]=stream; g_ret=vp_int(); return g_ret; }")
    pre = PRELUDE + G + "static int g_called,g_args[4],g_ret; static void*g_p[4];\n"
    h = '''int main(){ float s[2]; int hd[3],st[2],nb=vp_int(),n=vp_int(),h0=hd[0],h1=hd[1],h2=hd[2]; int rc=vp_int()&1?c_float_packer(s,nb,hd,st,n):float_packer_(s,&nb,hd,st,&n);
  if(nb<1||nb>16) VP_ASSERT(rc==-1&&g_called==0&&hd[0]==h0&&hd[1]==h1&&hd[2]==h2,"token sizes outside 1..16 are refused, nothing is written"); else VP_ASSERT(rc==0&&g_called==1&&g_args[0]==nb&&g_args[1]==n&&g_p[0]==s&&g_p[1]==hd&&g_p[2]==st&&hd[2]==n&&((unsigned)hd[0]>>20)==0xEFF&&((hd[0]>>16)&15)==nb-1&&(g_args[2]&0xFFFF)==0,"the header carries the mark, the token size and the number of points"); VP_REACH("end"); }'''
    run_cbmc(ctx, "c_float_packer", pre + t1 + h, "c_float_packer")
    h = '''int main(){ float s[2]; int hd[3],st[2],nb=-5,n=vp_int(); int rc=vp_int()&1?c_float_unpacker(s,hd,st,n,&nb):float_unpacker_(s,hd,st,&n,&nb);
  VP_ASSERT(nb==((hd[0]>>16)&15)+1,"the token size is that of the header"); if(((unsigned)hd[0]>>20)!=0xEFF||hd[2]!=n) VP_ASSERT(rc==-1&&g_called==0,"a foreign header or another number of points is refused"); else VP_ASSERT(g_called==1&&rc==g_ret&&g_p[0]==s&&g_p[1]==hd&&g_p[2]==st&&g_args[1]==n,"the block is unpacked"); VP_REACH("end"); }'''
    run_cbmc(ctx, "c_float_unpacker", pre + t1 + h, "c_float_unpacker")
    h = '''int main(){ int a,b,c,d,n=vp_int(); VP_ASSUME(n>=0&&n<(1<<29)); if(vp_int()&1) c_float_packer_params(&a,&b,&c,&d,n); else float_packer_params_(&a,&b,&c,&d,&n); VP_ASSERT(a==12&&b>=2*n&&b%4==0&&b<2*n+4&&c==0&&d==0,"three words of header and one 16-bit token per value"); VP_REACH("end"); }'''
    run_cbmc(ctx, "c_float_packer_params", pre + t1 + h, "c_float_packer_params")


def run(ctx):
    ctx.under_contract("float_packer_1", "float_unpacker_1", "c_float_packer", "c_float_unpacker", "c_float_packer_params", "float_packer, float_unpacker, float_packer_params (Fortran names)")
    ctx.assume("blocks of 1 to 2**28-1 finite values", "numbers below the smallest normal one count as zero", "whole-block statements proved for one arbitrary element and one arbitrary foreign word", "a block whose header exponent is zero comes back as zeros")
    ctx.trusted += TB_C
    t = cpp(SRC)
    ctx.parallel([("native", lambda: native(ctx, "floatpack", [lambda: ctx.cobj(SRC)])), ("pack", lambda: pack(ctx, t)), ("unpack", lambda: unpack(ctx, t)), ("lemma", lambda: lemma(ctx)), ("entry", lambda: entry(ctx, t))])
    return "proof", "float_packer_1 and float_unpacker_1 proved against a mantissa-level specification for one arbitrary element; the error bound is a lemma over both"
