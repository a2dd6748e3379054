from specs.common import *

SRC = f"{REPO}/src/primitives/f_bit_slicer.c"
G = r'''
static int *g_st,*g_w,*g_sl; static int g_n,g_it,g_cur,g_wd,g_k,g_t,g_seen,g_pos,g_kw,g_q,g_end; static unsigned g_bit,g_qv;
static inline int W(int w){ return w<0?0:(w>32?32:w); }
static inline unsigned sbit(int*a,int p){ return (((unsigned)a[p>>5])>>(31-(p&31)))&1u; }
'''
HV = "g_it=vp_int();g_cur=vp_int();g_wd=vp_int();g_seen=vp_int();g_pos=vp_int();g_kw=vp_int();g_bit=vp_uint();"
COMMON = ["g_it>=0&&g_it<=g_n", "number_of_slices==g_n-g_it", "g_cur>=0&&g_cur<=32*g_it", "bits_per_slice==g_w+g_it", "slices==g_sl+g_it", "bit_array==g_st+g_wd", "g_seen==(g_k<g_it)",
          "!(g_k<g_it)||(g_kw==W(g_w[g_k]))", "!(g_k<g_it)||(g_pos>=0&&g_pos<=g_cur-g_kw)", "g_wd>=0&&g_wd<=g_n"]
PTR = {"bits_per_slice": "{unsigned x; bits_per_slice=g_w+x;}", "slices": "{unsigned x; slices=g_sl+x;}", "bit_array": "{unsigned x; bit_array=g_st+x;}"}
PRE = "g_it=0;g_cur=0;g_wd=0;g_seen=0;"
GIN = "int vp_w=W(*bits_per_slice); VP_ASSUME(g_cur+vp_w<=g_end); if(g_it==g_k){ g_seen=1; g_pos=g_cur; g_kw=vp_w; %s }"
MAIN = r'''int main(){ int n=vp_int(); VP_ASSUME(n<(1<<24)); g_n=n<0?0:n; g_end=vp_int(); VP_ASSUME(g_end>=0&&g_end<(1<<29)+32);
  g_st=malloc(4ul*(((unsigned long)g_end>>5)+2)); g_w=malloc(4ul*g_n+4); g_sl=malloc(4ul*g_n+4);
  g_k=vp_int();g_t=vp_int(); VP_ASSUME(g_k>=0&&g_k<g_n); VP_ASSUME(g_t>=0&&g_t<W(g_w[g_k])); g_q=vp_int(); VP_ASSUME(g_q>=0&&g_q<=(g_end>>5)+1); g_qv=g_st[g_q]; int n0=n;
'''


def get(ctx, src):
    fn = "f_bits_get_"
    L = Loop(COMMON + ["left>=0&&left<=32", "32*g_wd-left==g_cur", "left==0||mybits==((unsigned)g_st[g_wd-1])<<(32-left)", "!(g_k<g_it)||(g_sl[g_k]==g_out)"],
             sel=None, ptr=PTR, mem={"slices": "__CPROVER_havoc_object(g_sl);"}, pre=PRE, ghost_in=GIN % "",
             ghost_out='if(g_it==g_k){ g_out=g_sl[g_k]; VP_ASSERT(((((unsigned)g_out)>>(g_kw-1-g_t))&1u)==sbit(g_st,g_pos+g_t),"bit t of slice k is stream bit position(k)+t"); VP_ASSERT(g_kw==32||(((unsigned)g_out)>>g_kw)==0,"no bit beyond the slice width"); } g_it++; g_cur+=vp_w; g_wd=bit_array-g_st;',
             extra=HV + "g_out=vp_int();", name="get")
    t = cut_loops(src, fn, [L])
    h = MAIN + f'{fn}(g_st,g_w,g_sl,&n); VP_ASSERT(g_seen&&g_sl[g_k]==g_out,"every slice is delivered and not overwritten"); VP_ASSERT(g_st[g_q]==(int)g_qv,"the stream is not modified"); VP_ASSERT(n==n0,"count unchanged"); VP_REACH("end"); }}'
    run_cbmc(ctx, "f_bits_get", PRELUDE + G + "static int g_out;" + t + h, fn)


def put(ctx, src):
    fn = "f_bits_put_"
    view = "(((g_pos+g_t)>>5)<g_wd?sbit(g_st,g_pos+g_t):((mybits>>(31-left-((g_pos+g_t)&31)))&1u))"
    L = Loop(COMMON + ["left>=1&&left<=32", "32*g_wd+32-left==g_cur", f"!(g_k<g_it)||{view}==g_bit", "!(g_q>=g_wd)||g_st[g_q]==(int)g_qv"],
             ptr=PTR, mem={"bit_array": "__CPROVER_havoc_object(g_st);"}, pre=PRE, ghost_in=GIN % "g_bit=(((unsigned)g_sl[g_k])>>(vp_w-1-g_t))&1u;",
             ghost_out="g_it++; g_cur+=vp_w; g_wd=bit_array-g_st;", extra=HV, name="put")
    t = cut_loops(src, fn, [L])
    h = MAIN + f'''{fn}(g_st,g_w,g_sl,&n); VP_ASSERT(g_seen&&sbit(g_st,g_pos+g_t)==g_bit,"bit t of slice k is written at stream bit position(k)+t");
  VP_ASSERT(!(g_q>=((g_cur+31)>>5))||g_st[g_q]==(int)g_qv,"words past the written bits are unchanged"); VP_ASSERT((g_cur&31)==0||(((unsigned)g_st[g_cur>>5])<<(g_cur&31))==0,"the last partial word is zero-filled"); VP_ASSERT(n==n0,"count unchanged"); VP_REACH("end"); }}'''
    run_cbmc(ctx, "f_bits_put", PRELUDE + G + t + h, fn)


def run(ctx):
    ctx.under_contract("f_bits_get", "f_bits_put")
    ctx.assume("slice count below 2^24, total below 2^29 bits; stream, widths and slices do not overlap; one readable word follows the stream (pre-fetch before a 0-bit slice)",
               "the total number of bits fits the stream (caller's precondition, assumed slice by slice)", "whole-stream statements proved for one arbitrary slice and one arbitrary bit of it, and one arbitrary foreign word")
    ctx.trusted += TB_C
    src = cpp(SRC)
    ctx.parallel([("native", lambda: native(ctx, "slicer", [lambda: ctx.cobj(SRC)])), ("get", lambda: get(ctx, src)), ("put", lambda: put(ctx, src))])
    return "proof", "slice k = the stream bits at the sum of the preceding widths, for any number and sequence of widths; loops cut at invariants, CBMC"
