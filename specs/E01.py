from specs.common import *

G = r'''
static unsigned *g_s,*g_d; static int g_n,g_it,g_k,g_q,g_seen; static unsigned g_x,g_x2,g_qv;
static inline unsigned byt(unsigned x,int i){ return (x>>(8*i))&255u; }
static inline unsigned bswp(unsigned x){ return byt(x,0)<<24|byt(x,1)<<16|byt(x,2)<<8|byt(x,3); }
static inline unsigned hswp(unsigned x){ return (x&0xffffu)<<16|x>>16; }
static inline unsigned ident(unsigned x){ return x; }
'''


def swap(ctx):
    fn = "swap_buffer_endianness"
    t = cpp(f"{REPO}/src/primitives/swap_buffer.c")
    L = Loop(["i>=0&&i<=g_n", "!(g_k<i)||buffer[g_k]==bswp(g_x)", "!(g_k>=i)||buffer[g_k]==g_x", "buffer[g_q]==g_qv"], mem={"buffer": "__CPROVER_havoc_object(buffer);"}, name="swap", keep=())
    c = cut_loops(t, fn, [L])
    h = f'''int main(){{ int n=vp_int(); VP_ASSUME(n<(1<<28)); g_n=n<0?0:n; g_s=malloc(4ul*g_n+8); unsigned*buffer=g_s; g_k=vp_int(); VP_ASSUME(g_k>=0&&g_k<g_n); g_q=g_n+1; g_x=g_s[g_k]; g_qv=g_s[g_q]; unsigned past=g_s[g_n];
  {fn}(g_s,n); VP_ASSERT(g_s[g_k]==bswp(g_x),"every word has its four bytes reversed"); VP_ASSERT(g_s[g_q]==g_qv,"nothing past the buffer is written"); VP_ASSERT(bswp(bswp(g_x))==g_x,"lemma: reversal is an involution"); VP_REACH("end"); }}'''
    run_cbmc(ctx, "swap", PRELUDE + G + c + h, fn)
    # n <= 0 : nothing happens
    h = f'''int main(){{ int n=vp_int(); VP_ASSUME(n<=0); unsigned b[2],x=b[0],y=b[1]; {fn}(b,n); VP_ASSERT(b[0]==x&&b[1]==y,"a count of zero or less changes nothing"); VP_REACH("end"); }}'''
    run_cbmc(ctx, "swap empty", PRELUDE + G + t + h, fn, unwind=2)


def fmap(ctx, fn, spec):
    t = fsrc(ctx, "base/movlev.F90")
    L = Loop(["i>=1&&i<=g_n+1", f"!(g_k<i-1)||((unsigned)dst[g_k])=={spec}(g_x)", "((unsigned)dst[g_q])==g_qv", "g_seen==(g_k<i-1)"], mem={"dst": "__CPROVER_havoc_object(dst);"},
             pre="g_seen=0;", ghost_in="if(i-1==g_k) g_seen=1;", extra="g_seen=vp_int();", name=fn)
    c = cut_loops(t, fn, [L])
    h = f'''int main(){{ int n=vp_int(); VP_ASSUME(n<(1<<28)); g_n=n<0?0:n; g_s=malloc(4ul*g_n+8); g_d=malloc(4ul*g_n+8); g_k=vp_int(); VP_ASSUME(g_k>=0); VP_ASSUME(g_k<g_n||g_n==0&&g_k==0); g_q=vp_int(); VP_ASSUME(g_q>=g_n&&g_q<g_n+2); g_x=g_s[g_k]; g_qv=g_d[g_q]; int n0=n;
  {fn}((int*)g_s,(int*)g_d,&n); VP_ASSERT(n0<=0||(g_seen&&g_d[g_k]=={spec}(g_x)),"every word is converted"); VP_ASSERT(g_d[g_q]==g_qv,"nothing past the destination is written"); VP_ASSERT(n==n0&&g_s[g_k]==g_x,"source and count unchanged"); VP_ASSERT({spec}({spec}(g_x))==g_x,"lemma: the conversion is an involution"); VP_REACH("end"); }}'''
    run_cbmc(ctx, fn, FPRE + G + ftn.protos(c) + c + h, fn)


def pair(ctx):
    fn = "move6432_"
    t = cpp(f"{REPO}/src/base/movr8r4.c")
    L = Loop(["g_it>=0&&g_it<=g_n&&lng==g_n-g_it", "src==g_s+2*g_it", "dst==g_d+2*g_it", "!(g_k<g_it)||(g_d[2*g_k]==g_x2&&g_d[2*g_k+1]==g_x)", "g_d[g_q]==g_qv", "g_seen==(g_k<g_it)"],
             sel=r"\*dst\+\+ = t2;\s*\*dst\+\+ = t1", ptr={"src": "{unsigned x; src=g_s+x;}", "dst": "{unsigned x; dst=g_d+x;}"}, mem={"dst": "__CPROVER_havoc_object(g_d);"},
             pre="g_it=0;g_seen=0;", ghost_in="if(g_it==g_k) g_seen=1;", ghost_out="g_it++;", extra="g_it=vp_int();g_seen=vp_int();", name="pair", keep=())
    L2 = Loop(["1"], sel=r"\*dst\+\+ = t1;\s*\*dst\+\+ = t2", mem={"dst": ";"}, pre='VP_ASSERT(0,"big-endian branch not taken on this machine");', name="big-endian")
    c = cut_loops(t, fn, [L, L2])
    h = f'''int main(){{ int n=vp_int(); VP_ASSUME(n>=0&&n<(1<<27)); g_n=n; g_s=malloc(8ul*n+8); g_d=malloc(8ul*n+8); g_k=vp_int(); VP_ASSUME(g_k>=0&&g_k<n||n==0&&g_k==0); g_q=vp_int(); VP_ASSUME(g_q>=2*n&&g_q<2*n+2); g_x=g_s[2*g_k]; g_x2=g_s[2*g_k+1]; g_qv=g_d[g_q]; int n0=n;
  {fn}(g_s,g_d,&n); VP_ASSERT(n0==0||(g_seen&&g_d[2*g_k]==g_x2&&g_d[2*g_k+1]==g_x),"the two words of every pair are exchanged"); VP_ASSERT(g_d[g_q]==g_qv,"nothing past the destination is written"); VP_ASSERT(n==n0,"count unchanged"); VP_REACH("end"); }}'''
    run_cbmc(ctx, fn, PRELUDE + G + c + h, fn)


def run(ctx):
    ctx.under_contract("swap_buffer_endianness", "swap_word_endianness (inlined)", "movlev", "move3216", "move832", "move6432")
    ctx.assume("counts below 2^28; source and destination distinct (move*)", "little-endian machine", "whole-buffer statements proved for one arbitrary word and one arbitrary foreign word")
    ctx.trusted += TB_C + TB_F[1:2]
    P = f"{REPO}/src/"
    ctx.parallel([("native", lambda: native(ctx, "bytes", [lambda: ctx.cobj(P + "primitives/swap_buffer.c"), lambda: ctx.fobj(P + "base/movlev.F90"), lambda: ctx.cobj(P + "base/movr8r4.c")], lang="f")),
                  ("swap", lambda: swap(ctx)), ("movlev", lambda: fmap(ctx, "movlev", "ident")), ("move3216", lambda: fmap(ctx, "move3216", "hswp")), ("move832", lambda: fmap(ctx, "move832", "bswp")), ("pair", lambda: pair(ctx))])
    return "proof", "word k of the result is the byte (half-word, word-pair) reversal of word k of the source, frame included, for any length; CBMC on loops cut at invariants"
