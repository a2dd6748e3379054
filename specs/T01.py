from specs.common import *


def bufr(ctx):
    t = fsrc(ctx, "burp98_f/bufrchr.F90")
    lab = re.search(r"(__label_000010)\s*:", t)
    if not lab:
        raise ToolError("bufrchr: search label not found")
    inv = ["debut>=0&&debut<fin&&fin<=g_n+1", "!(g_k<=debut)||TAB(g_k)<g_e", "!(g_k>=fin)||TAB(g_k)>g_e"]
    hv = "debut=vp_int();fin=vp_int();milieu=vp_int();"
    c = cut_label(t, "bufrchr", "__label_000010", inv, hv + "__VP_AFTER", name="search", dec="fin-debut")
    # the ordering precondition, at the probed position (assumed after the invariant of the iteration)
    c = re.sub(r"__VP_AFTER(.*?)(__vp_dec___label_000010=)", r"\1 g_m=(debut+fin)/2; VP_ASSUME(!(debut>=0&&debut<fin&&fin<=g_n+1)||ORD(g_m)); \2", c, count=1, flags=re.S)
    h = r'''int main(){ g_n=vp_int(); VP_ASSUME(g_n>=0&&g_n<(1<<28)); g_t=malloc(12*(unsigned long)(g_n+1)); g_e=vp_int(); g_k=vp_int(); VP_ASSUME(g_n==0&&g_k==0||g_k>=1&&g_k<=g_n); int e=g_e,n=g_n;
  if(g_n==0) g_k=-1;
  int r=bufrchr(&e,g_t,&n); VP_ASSERT(r==-1||r>=1&&r<=g_n,"the result is absence or a position of the table"); VP_ASSERT(r==-1||TAB(r)==g_e,"a position returned holds the element"); VP_ASSERT(r!=-1||g_n==0||TAB(g_k)!=g_e,"absence is reported only when no entry is the element");
  VP_ASSERT(e==g_e&&n==g_n,"arguments unchanged"); VP_REACH("end"); }'''
    pre = r'''static int *g_t,g_n,g_e,g_k,g_m;
#define TAB(i) g_t[((long)(i)-1)*3]
#define ORD(m) (!((m)>=1&&(m)<=g_n&&g_k>=1&&g_k<=g_n)||((g_k<(m)?TAB(g_k)<=TAB(m):1)&&(g_k>(m)?TAB(g_k)>=TAB(m):1)))
'''
    c = c.replace("g_k<=debut)||", "g_k>=1&&g_k<=debut)||").replace("g_k>=fin)||", "g_k<=g_n&&g_k>=1&&g_k>=fin)||")
    run_cbmc(ctx, "bufrchr", FPRE + pre + ftn.protos(t) + c + h, "bufrchr", opts=["--pointer-check"])


def cherche(ctx):
    src = ctx.write("ez_cherche.F90", f'#include "{REPO}/src/interp/ez_cherche.inc"\n')
    t = ftn.ftn2c(ctx, src, ["-ffree-form", "-ffree-line-length-none"])
    inv = ["debut>=1", "debut==1&&fin==1&&g_n==1||debut<fin&&fin<=g_n", "debut==1||TAB(debut)<g_v", "fin==g_n||g_v<=TAB(fin)", "milieu==(debut+fin)/2"]
    c = cut_label(t, "ez_cherche", "__label_000010", inv, "debut=vp_int();fin=vp_int();milieu=vp_int();", name="search", dec="fin-debut")
    h = r'''int main(){ g_n=vp_int(); VP_ASSUME(g_n>=1&&g_n<(1<<23)); g_t=malloc(4*(unsigned long)g_n); g_v=vp_float(); VP_ASSUME(!__CPROVER_isnanf(g_v)); float v=g_v; int n=g_n;
  int r=ez_cherche(&v,g_t,&n); VP_ASSERT(r>=1&&(r<g_n||g_n==1),"the result is the index of an interval of the table"); VP_ASSERT(r==1||TAB(r)<g_v,"the lower end is below the value, unless it is the first interval");
  VP_ASSERT(r>=g_n-1||g_v<=TAB(r+1),"the upper end is not below the value, unless it is the last interval"); VP_ASSERT(v==g_v&&n==g_n,"arguments unchanged"); VP_REACH("end"); }'''
    pre = r'''static float *g_t,g_v; static int g_n;
#define TAB(i) g_t[(long)(i)-1]
'''
    c = c.replace("!(TAB(debut)", "!(TAB(debut)")
    asm = "VP_ASSUME(!__CPROVER_isnanf(TAB(milieu)));"
    c = re.sub(r"(if \(milieu != debut\)\s*\{)", r"\1 " + asm, c, count=1)
    run_cbmc(ctx, "ez_cherche", FPRE + pre + ftn.protos(t) + c + h, "ez_cherche", opts=["--pointer-check"])


def run(ctx):
    ctx.under_contract("bufrchr", "ez_cherche")
    ctx.trusted += TB_F
    ctx.assume("bufrchr: the table is sorted (precondition of the property), at most 2^28 entries; the element word is the first of each 3-word entry",
               "ez_cherche: table of fewer than 2^23 finite values (the callers' grids are far smaller); no NaN at the probed positions",
               "interp1d_findpos and interp1d_findpos8: floating-point bisection, no contract discharged; native oracle only (bounded, not counted as proved)")
    src = ctx.write("ez_cherche.F90", f'#include "{REPO}/src/interp/ez_cherche.inc"\n')
    ctx.fobj(f"{REPO}/src/interpv/Interp1D_Constants.F90")
    ctx.parallel([("native", lambda: native(ctx, "search", [lambda: ctx.fobj(f"{REPO}/src/burp98_f/bufrchr.F90"), lambda: ctx.fobj(src, extra=["-ffree-form"], name="zc"), lambda: ctx.fobj(f"{REPO}/src/interpv/Interp1D_FindPos.F90")], lang="f")),
                  ("bufrchr", lambda: bufr(ctx)), ("cherche", lambda: cherche(ctx))])
    return "proof", ""
