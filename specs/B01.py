from specs.common import *

SPEC = r'''
static inline int enc(int d){ return ((d/100000)&3)<<14 | (((d%100000)/1000)&63)<<8 | ((d%100000)%1000); }
static inline int dec(int c){ return ((c>>14)&3)*100000+((c>>8)&63)*1000+(c&255); }
static int *g_l,*g_c; static int g_k,g_q,g_x,g_qv;
'''


def scalar(ctx):
    for f, h in (("mrbcov", 'int F=vp_int(),X=vp_int(),Y=vp_int(); VP_ASSUME(F>=0&&F<4&&X>=0&&X<64&&Y>=0&&Y<256); int d=F*100000+X*1000+Y,d0=d,r=mrbcov(&d); VP_ASSERT(r==(F<<14|X<<8|Y),"encode: F, X, Y in their own bit fields"); VP_ASSERT(d==d0,"argument unchanged"); VP_ASSERT(enc(d0)==(F<<14|X<<8|Y),"spec: enc agrees with the fields"); VP_ASSERT(r>=0&&r<65536,"code fits 16 bits"); VP_ASSERT(dec(r)==d0,"lemma: decode(encode(d))==d");'),
                 ("mrbdcv", 'int c=vp_int(); int c0=c,r=mrbdcv(&c); VP_ASSERT(r==((c0>>14)&3)*100000+((c0>>8)&63)*1000+(c0&255),"decode: decimal digits of the three fields, whatever lies above bit 15"); VP_ASSERT(c==c0,"argument unchanged"); VP_ASSERT(enc(r)==(c0&65535),"lemma: encode(decode(c))==c");')):
        t = fsrc(ctx, f"burp98_f/{f}.F90")
        run_cbmc(ctx, f, ftext(t) + SPEC + "int main(){" + h + 'VP_REACH("end");}', f)


def lists(ctx):
    t = fsrc(ctx, "burp98_f/mrbcol.F90")
    fn = next((f for f in ftn.split_funcs(t) if f.startswith("master")), "mrbcol")
    for name, out, inp, spec, sel in (("mrbcol", "cliste", "liste", "enc", r"iibit = ielem / 100000|ielem = liste\["), ("mrbdcl", "liste", "cliste", "dec", r"viiibit = ielem & 255|ielem = cliste\[")):
        inv = ["i>=1", "i<=(*nele<0?0:*nele)+1", f"!(g_k<i-1) || {out}[g_k]=={spec}(g_x)", f"{out}[g_q]==g_qv", "g_seen==(g_k<i-1)"]
        L = Loop(inv, sel=sel, mem={out: f"__CPROVER_havoc_object({out});"}, pre="g_seen=0;", ghost_in=f"if(i-1==g_k) {{ VP_ASSUME({inp}[i-1]==g_x); g_seen=1; }}",
                 extra="g_seen=vp_int();", name=name)
        c = cut_loops(t, fn, [L])
        rng = "" if spec == "dec" else "{int F=vp_int(),X=vp_int(),Y=vp_int(); VP_ASSUME(F>=0&&F<4&&X>=0&&X<64&&Y>=0&&Y<256); g_x=F*100000+X*1000+Y;}"
        h = f'''int main(){{ int n=vp_int(); VP_ASSUME(n<(1<<28)); unsigned long sz=vp_uint(); VP_ASSUME(sz>=1 && sz<(1ul<<29) && (long)sz>=n); g_l=malloc(4*sz); g_c=malloc(4*sz); int *liste=g_l,*cliste=g_c;
  g_k=vp_int(); VP_ASSUME(g_k>=0); g_q=vp_int(); VP_ASSUME(g_q>=0 && g_q>=n && (unsigned long)g_q<sz || n<=0&&g_q==0); g_x=vp_int(); {rng} VP_ASSUME(!(g_k<n) || {inp}[g_k]==g_x); g_qv={out}[g_q];
  VP_ASSUME(g_q<(long)sz); int n0=n, r={name}({"liste,cliste" if name == "mrbcol" else "cliste,liste"},&n); VP_ASSERT(r==0,"returns 0");
  VP_ASSERT(!(g_k<n0) || (g_seen && {out}[g_k]=={spec}(g_x)),"every element of the list is converted as the scalar form"); VP_ASSERT(!(g_q>=n0) || {out}[g_q]==g_qv,"nothing is written past the list"); VP_ASSERT(n==n0,"count unchanged");
  VP_REACH("end"); }}'''
        run_cbmc(ctx, name, FPRE + SPEC + "static int g_seen;\n" + ftn.protos(t) + c + h, name)


def btyp(ctx):
    t = fsrc(ctx, "burp98_f/mrbtyp.F90", need_app=True)
    h = r'''int main(){ int N=vp_int(),T=vp_int(),S=vp_int(); VP_ASSUME(N>=0&&N<16&&T>=0&&T<128&&S>=0&&S<16); int n=N,t=T,s=S,m=-1,r=mrbtyp(&n,&t,&s,&m);
  VP_ASSERT(r==(N<<11|T<<4|S),"encode: nature, type, subtype in their own fields"); VP_ASSERT(n==N&&t==T&&s==S&&m==-1,"encode leaves its arguments");
  int b=r,r2; n=vp_int();t=vp_int();s=vp_int(); r2=mrbtyp(&n,&t,&s,&b); VP_ASSERT(r2==0&&n==N&&t==T&&s==S&&b==r,"decode returns what was encoded");
  b=vp_int(); VP_ASSUME(b>=0&&b<32768); int b0=b; r2=mrbtyp(&n,&t,&s,&b); VP_ASSERT(r2==0&&n>=0&&n<16&&t>=0&&t<128&&s>=0&&s<16&&(n<<11|t<<4|s)==b0,"decode of any 15-bit code re-encodes to it");
  b=vp_int(); VP_ASSUME(b<-1); int n0=n,t0=t,s0=s; r2=mrbtyp(&n,&t,&s,&b); VP_ASSERT(r2!=0&&n==n0&&t==t0&&s==s0,"an invalid code is refused and changes nothing"); VP_REACH("end"); }'''
    run_cbmc(ctx, "mrbtyp", ftext(t) + h, "mrbtyp")


def run(ctx):
    ctx.under_contract("mrbcov", "mrbdcv", "mrbcol", "mrbdcl", "mrbtyp")
    ctx.assume("list element count below 2^28, input and output lists distinct", "descriptor digits within field range: F 0..3, X 0..63, Y 0..255 (the documented field widths)",
               "block types within their fields: nature 0..15, type 0..127, subtype 0..15", "whole-list statements proved for one arbitrary element and one arbitrary foreign position")
    ctx.trusted += TB_F + ["stub App module: logging has no effect"]
    B = f"{REPO}/src/burp98_f/"
    ctx.app_module()
    ctx.parallel([("native", lambda: native(ctx, "burpcode", [lambda f=f: ctx.fobj(B + f + ".F90") for f in ("mrbcov", "mrbdcv", "mrbcol", "mrbtyp")] + [ctx.app_module()], lang="f")),
                  ("scalar", lambda: scalar(ctx)), ("lists", lambda: lists(ctx)), ("btyp", lambda: btyp(ctx))])
    return "proof", "postconditions of the code/descriptor conversions over all codes and lists of any length, on gfortran's own GENERIC rendering of the source, discharged by CBMC"
