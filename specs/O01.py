from specs.common import *

ROUT = [("csortr_", "ipsort_", "float"), ("csortd_", "ipsort8_", "double"), ("csorte_", "ipsorti_", "int"), ("csortc_", "ipsortc_", "char")]
G = r'''
static int g_n,g_k,g_v,g_p,g_len,g_old,g_init,g_ok; static int *g_i; int __CPROVER_uninterpreted_cmp(int,int);
#define RNG(x) ((x)>=1&&(x)<=g_n)
'''


def key(ty):
    if ty == "char":
        return "__CPROVER_uninterpreted_cmp(a,b)>0"
    return "g_l[(a)-1]>g_l[(b)-1]"


def csort(ctx, t, fn, ty, mem):
    """mem: memory safety and index range only; else: permutation and order"""
    hv = {"index": "__CPROVER_havoc_object(index);"}
    gh = "g_p=vp_int();"
    # every value of the index vector keeps a place (ghost g_p); every entry stays in range (arbitrary entry g_k)
    perm = "g_p>=0&&g_p<g_n&&index[g_p]==g_v"
    rng = "RNG(index[g_k])"
    follow = lambda i, j: f"if({i}>=0&&{i}<g_n&&{j}>=0&&{j}<g_n&&index[g_p]!=g_v) g_p=(index[{i}]==g_v)?{i}:(index[{j}]==g_v)?{j}:g_p;"
    init = Loop(["i>=0&&i<=g_n&&*size==g_n", "!(g_v-1<i)||index[g_v-1]==g_v", "!(g_k<i)||index[g_k]==g_k+1", "!(g_k+1<i&&g_k+1<g_n)||index[g_k+1]==g_k+2"], name="initialise", sel=r"^for.*\bi\s*\+\s*1\b(?!.*gap)", mem=hv)
    inner = Loop(["i>=0&&(i<=top||i==0)", "gap>=1&&top==g_n-gap&&*size==g_n", "switches>=0&&switches<=i", rng, "g_k+1>=g_n||RNG(index[g_k+1])", perm,
                  "switches!=0||gap!=1||!(g_k<i&&g_k+1<g_n)||!GT(index[g_k],index[g_k+1])"], name="pass", sel=r"switches|gap", mem=hv, extra=gh,
                 lemma="if(i<top){ VP_ASSUME(RNG(index[i])&&RNG(index[i+gap])); }", ghost_in="int __vp_i=i,__vp_j=i+gap;", ghost_out=follow("__vp_i", "__vp_j"))
    outer = Loop(["gap>=1||g_n<=0||gap==g_n", "gap<=(g_n>11?g_n:11)", "*size==g_n", rng, "g_k+1>=g_n||RNG(index[g_k+1])", perm], name="passes", mem=hv, extra=gh)
    if mem:
        init.inv = [init.inv[0]] + init.inv[2:]
        inner.inv = inner.inv[:5]
        outer.inv = outer.inv[:5]
        for l in (inner, outer):
            l.extra = ""
        inner.ghost_in = inner.ghost_out = ""
    c = cut_loops(t, fn, [init, inner, outer])
    # the call of the string comparison: its arguments are the starts of two strings of the list
    if ty == "char":
        c = re.sub(r"\bstrncmp\s*\(", "vp_cmp(", c)
    lst = f"static {ty} *g_l;\n#define GT(a,b) ({key(ty)})\n"
    cmpf = "int vp_cmp(const char*x,const char*y,int len){ long a=(x-g_l)/g_len,b=(y-g_l)/g_len; VP_ASSERT(len==g_len,\"whole strings are compared\"); VP_ASSERT(x-g_l==a*g_len&&y-g_l==b*g_len&&a>=0&&a<g_n&&b>=0&&b<g_n,\"strings of the list are compared\"); return __CPROVER_uninterpreted_cmp((int)a+1,(int)b+1); }\n" if ty == "char" else ""
    alloc = "g_len=4; g_l=malloc(4ul*g_n);" if ty == "char" else f"g_l=malloc(sizeof({ty})*(unsigned long)g_n);"
    call = f"{fn}(g_l,g_i,&n,g_len)" if ty == "char" else f"{fn}(g_l,g_i,&n)"
    h = f'''int main(){{ g_n=vp_int(); VP_ASSUME(g_n>=1&&g_n<(1<<26)); {alloc} g_i=malloc(4ul*g_n); g_k=vp_int(); VP_ASSUME(g_k>=0&&g_k<g_n); g_v=vp_int(); VP_ASSUME(RNG(g_v)); int n=g_n;
  g_p=vp_int(); VP_ASSUME(g_p>=0&&g_p<g_n);
  if(g_i[0]>0){{ VP_ASSUME(RNG(g_i[g_k])&&RNG(g_i[0])&&g_i[g_p]==g_v); if(g_k+1<g_n) VP_ASSUME(RNG(g_i[g_k+1])); }} else g_p=g_v-1;
  {call}; VP_ASSERT(n==g_n,"length unchanged"); VP_ASSERT(RNG(g_i[g_k]),"every entry of the index designates an element"); {chr(10)+'#if 0' if mem else ''}
  VP_ASSERT(g_p>=0&&g_p<g_n&&g_i[g_p]==g_v,"every element of the list stays in the index (hence the index is a permutation)");
  VP_ASSERT(g_k+1>=g_n||!GT(g_i[g_k],g_i[g_k+1]),"consecutive elements are in order");
{'#endif' if mem else ''}
 VP_REACH("end"); }}'''
    run_cbmc(ctx, fn.rstrip("_") + (".memory" if mem else ""), PRELUDE + G + lst + cmpf + c + h, fn.rstrip("_"), opts=["--pointer-check"] if mem else [], timeout=300)


def ipsort(ctx, t, fn, cs, ty):
    a = "list,index,size" + (",len" if ty == "char" else "")
    s = 'VP_ASSERT(*index<=0,"the index is to be initialised"); VP_ASSERT(list==g_l&&index==g_i&&*size==g_n' + ("&&len==g_len" if ty == "char" else "") + ',"the arguments are those of the caller"); g_ok++;'
    c = replace_body(t, cs, s)
    call = f"{fn}(g_i,g_l,&n" + (",g_len" if ty == "char" else "") + ")"
    h = f'''int main(){{ g_n=vp_int(); VP_ASSUME(g_n>=1&&g_n<(1<<26)); g_i=malloc(4ul*g_n); g_l=malloc(16); g_len=vp_int(); int n=g_n; {call}; VP_ASSERT(g_ok==1&&n==g_n,"sorted once"); VP_REACH("end"); }}'''
    run_cbmc(ctx, fn.rstrip("_"), PRELUDE + G + f"static {ty} *g_l;\n" + c + h, fn.rstrip("_"), opts=["--pointer-check"])


def run(ctx):
    for a, b, _ in ROUT:
        ctx.under_contract(a.rstrip("_"), b.rstrip("_"))
    ctx.trusted += TB_C
    ctx.assume("fewer than 2^26 elements", "an index given on entry is a permutation of 1..n (else it is initialised)", "an index whose n entries contain every value 1..n is a permutation (pigeonhole, not machine checked)",
               "the comparison of strings is strncmp over the whole length, taken as an uninterpreted function of the two strings; strings of 4 characters stand for any length in its address arithmetic",
               "termination of the passes is not proved (partial correctness)", "sort, isort (heap sorts) and permut: native oracle only (bounded, not counted as proved)")
    src = f"{REPO}/src/base/ipsort.c"
    t = cpp(src)
    tasks = [("native", lambda: native(ctx, "sorts", [lambda: ctx.cobj(src)] + [lambda f=f: ctx.fobj(f"{REPO}/src/base/{f}.f") for f in ("sort", "isort", "permut")], lang="f"))]
    for a, b, ty in ROUT:
        tasks += [(a, lambda a=a, ty=ty: csort(ctx, t, a, ty, 0)), (a, lambda a=a, ty=ty: csort(ctx, t, a, ty, 1)), (b, lambda a=a, b=b, ty=ty: ipsort(ctx, t, b, a, ty))]
    ctx.parallel(tasks)
    return "proof", ""
