from specs.common import *

TY = dict(float="float", double="double", int="int", short="short", byte="char", uint="unsigned int", ushort="unsigned short", ubyte="unsigned char")
FL = ("float", "double")
BITS = dict(int=32, short=16, byte=8, uint=32, ushort=16, ubyte=8)


def G(ty):
    return f'''
static {ty} *g_s,*g_d,g_x,g_y,g_qv,g_max,g_M; static int g_n,g_k,g_q,g_w,g_m,g_h; static {ty} vp_val(void){{ {ty} x; return x; }}
'''


def anal(ctx, k, t):
    ty, mv, fn = TY[k], f"{k}_missing_val", f"fld_{k}_anal"
    fin = f"VP_ASSUME(g_x==g_x);" if k in FL else ""
    # g_w: index of a missing value when the count is positive; g_m: index of the maximum when there is a valid value
    inv = ["i>=1&&i<=g_n&&missing>=0&&missing<=i", f"missing==0||(g_w>=0&&g_w<i&&field[g_w]=={mv})", f"!(g_k<i&&g_x=={mv})||missing>0",
           f"!(g_k<i&&g_x!={mv})||(min<=g_x&&g_x<=max&&g_m>=0)",
           f"g_m<0?(max=={mv}&&min=={mv}&&missing==i):(g_m<i&&field[g_m]==max&&max!={mv}&&min!={mv}&&min<=max)"]
    if k in FL:
        inv.append("max==max&&min==min")
    L = Loop(inv, name="scan", pre=f"g_w=0; g_m=(field[0]=={mv})?-1:0;", extra="g_w=vp_int();g_m=vp_int();", ghost_in="VP_ASSUME(field[i]==field[i]);" if k in FL else "",
             lemma=(f"if(i<g_n){{ VP_ASSUME(!(i==g_k)||field[i]==g_x);}}"), ghost_out=f"if(field[i-1]=={mv}) g_w=i-1; else if(field[i-1]==max) g_m=i-1;")
    c = cut_loops(t, fn, [L])
    h = f'''int main(){{ g_n=vp_int(); VP_ASSUME(g_n>=1&&g_n<(1<<26)); g_s=malloc(sizeof({ty})*(unsigned long)g_n); {mv}=vp_val(); VP_ASSUME({mv}=={mv}); g_k=vp_int(); VP_ASSUME(g_k>=0&&g_k<g_n); g_x=g_s[g_k]; {fin} VP_ASSUME(g_s[0]==g_s[0]); {ty} mx,mn;
  int r={fn}(g_s,g_n,&mx,&mn); VP_ASSERT(r>=0&&r<=g_n,"count within the field"); VP_ASSERT(r==0||(g_w>=0&&g_w<g_n&&g_s[g_w]=={mv}),"a positive count has a missing element"); VP_ASSERT(g_x!={mv}||r>0,"a missing element is counted");
  VP_ASSERT(g_x=={mv}||(mn<=g_x&&g_x<=mx),"valid values lie between the reported extremes"); VP_ASSERT(g_m<0?(r==g_n&&mx=={mv}&&mn=={mv}):(g_s[g_m]==mx&&mx!={mv}&&mn<=mx),"the maximum is a valid element, unless all are missing"); VP_REACH("end"); }}'''
    run_cbmc(ctx, fn, PRELUDE + G(ty) + c + h, fn)


def stub(k):
    """contract of fld_<k>_anal used by its callers"""
    ty, mv = TY[k], f"{k}_missing_val"
    nan = f"VP_ASSUME(mx-mx==0&&mn-mn==0&&{mv}-{mv}==0);" if k in FL else ""
    return f'''VP_ASSERT(nElems>=1,"call: non-empty field"); {ty} mx=vp_val(),mn=vp_val(); int r=vp_int(); {nan} VP_ASSUME(r>=0&&r<=nElems); g_w=vp_int(); VP_ASSUME(g_w>=0&&g_w<nElems); g_m=vp_int(); VP_ASSUME(g_m>=-1&&g_m<nElems);
  VP_ASSUME(r==0||field[g_w]=={mv}); VP_ASSUME(field[g_k]!={mv}||r>0); VP_ASSUME(field[g_k]=={mv}||(mn<=field[g_k]&&field[g_k]<=mx)); VP_ASSUME(g_m<0?(r==nElems&&mx=={mv}&&mn=={mv}):(field[g_m]==mx&&mx!={mv}&&mn<=mx&&r<nElems)); g_max=mx; *fieldMax=mx; *fieldMin=mn; return r;'''


def encode(ctx, k, t):
    ty, mv, fn = TY[k], f"{k}_missing_val", f"fst_{k}_encode_missing"
    t = replace_body(replace_body(t, f"fld_{k}_anal", stub(k)), "missing_value_used", "return 1;")
    f = func_text(t, fn)
    L = Loop(["i>=0&&i<=(int)nElems&&(int)nElems==g_n", f"!(g_k<i)||dst[g_k]==(g_x=={mv}?plug:g_x)", f"!(g_w<i)||dst[g_w]==plug", "!(g_k>=i)||dst[g_k]==g_y", "dst[g_n]==g_qv"] , all=True, name="substitute", mem={"dst": "__CPROVER_havoc_object(dst);"})
    c = cut_loops(t, fn, [L])
    if k in FL:
        # NaN-free
        pre = "VP_ASSUME(g_x==g_x&&g_y==g_y&&g_qv==g_qv); VP_ASSUME(nb>=1&&nb<=64);"
        cap = "1"
    else:
        B, sg = BITS[k], k in ("int", "short", "byte")
        pre = f"VP_ASSUME(nb>=1&&nb<=64);"
        cap = f"(long)g_max<(long)((1ul<<((nb<{B}?nb:{B}){'-1' if sg else ''}))-1)"
    h = f'''int main(){{ g_n=vp_int(); VP_ASSUME(g_n>=1&&g_n<(1<<26)); g_s=malloc(sizeof({ty})*(g_n+1ul)); g_d=malloc(sizeof({ty})*(g_n+1ul)); {mv}=vp_val(); VP_ASSUME({mv}=={mv}); g_k=vp_int(); VP_ASSUME(g_k>=0&&g_k<g_n); g_x=g_s[g_k]; g_y=g_d[g_k]; g_qv=g_d[g_n]; int nb=vp_int(); {pre}
  int r={fn}(g_d,g_s,g_n,nb); VP_ASSERT(g_s[g_k]==g_x,"source unchanged"); VP_ASSERT(g_d[g_n]==g_qv,"nothing written past the field");
  VP_ASSERT(g_x!={mv}||r>0,"a field with a missing element is reported"); VP_ASSERT(r==0||g_s[g_w]=={mv},"a positive count has a missing element"); VP_ASSERT(r!=0||g_d[g_k]==g_y,"without missing elements the destination is left alone");
  VP_ASSERT(r==0||g_x=={mv}||g_d[g_k]==g_x,"valid elements are copied"); VP_ASSERT(r==0||g_x!={mv}||g_d[g_k]==g_d[g_w],"every missing element gets the same code");
  VP_ASSERT(r==0||!({cap})||g_x=={mv}||g_d[g_k]<g_d[g_w],"the code is above every valid value"); VP_REACH("end"); }}'''
    run_cbmc(ctx, fn, PRELUDE + G(ty) + c + h, fn, timeout=250)


def decode(ctx, k, t):
    ty, mv, fn = TY[k], f"{k}_missing_val", f"fst_{k}_decode_missing"
    t = replace_body(replace_body(t, f"fld_{k}_anal", stub(k) .replace("g_max=mx;", f"g_M=(r>0&&{mv}>mx)?{mv}:mx; g_h=(r>0&&{mv}>=mx)?g_w:g_m; ")), "missing_value_used", "return 1;")
    L = Loop(["i>=0&&i<=nElems", f"!(g_k<i)||field[g_k]==(g_x==g_M?{mv}:g_x)", "!(g_k>=i)||field[g_k]==g_x", "field[g_n]==g_qv", "max==g_M"], mem={"field": "__CPROVER_havoc_object(field);"}, name="restore")
    c = cut_loops(t, fn, [L])
    pre = "VP_ASSUME(g_x==g_x&&g_qv==g_qv);" if k in FL else ""
    h = f'''int main(){{ g_n=vp_int(); VP_ASSUME(g_n>=1&&g_n<(1<<26)); g_s=malloc(sizeof({ty})*(g_n+1ul)); {mv}=vp_val(); VP_ASSUME({mv}=={mv}); g_k=vp_int(); VP_ASSUME(g_k>=0&&g_k<g_n); g_x=g_s[g_k]; g_qv=g_s[g_n]; {pre}
  {ty} *o=g_s; {fn}(g_s,g_n); VP_ASSERT(g_x<=g_M,"the replaced value is not below any element of the field"); VP_ASSERT(g_h>=0&&g_h<g_n,"the replaced value is an element of the field"); VP_ASSERT(g_s[g_k]==(g_x==g_M?{mv}:g_x),"exactly the largest value is replaced by the missing value, first element included"); VP_ASSERT(g_s[g_n]==g_qv,"nothing written past the field"); VP_REACH("end"); }}'''
    run_cbmc(ctx, fn, PRELUDE + G(ty) + c + h, fn)


def trip(ctx, k):
    ty = TY[k]
    # k arbitrary, w a missing element, h the element holding the decoder's maximum: contracts of encode at k and h, of decode at k and w
    c = f'''int main(){{ {ty} mv,sk,sh,dk,dh,dw,M,rk; VP_ASSUME(mv==mv&&sk==sk&&sh==sh&&dw==dw); VP_ASSUME(sk==mv?dk==dw:(dk==sk&&dk<dw)); VP_ASSUME(sh==mv?dh==dw:(dh==sh&&dh<dw)); VP_ASSUME(M==dh&&dk<=M&&dw<=M); rk=(dk==M)?mv:dk;
  VP_ASSERT(sk==mv?rk==mv:rk==sk,"lemma: decode(encode(field)) is the field, missing values exactly where they were"); VP_REACH("end"); }}'''
    run_cbmc(ctx, f"round trip {k}", PRELUDE + c, f"fst_{k}_encode_missing fst_{k}_decode_missing")


def run(ctx):
    for k in TY:
        ctx.under_contract(f"fld_{k}_anal", f"fst_{k}_encode_missing", f"fst_{k}_decode_missing")
    ctx.assume("fields of 1 to 2^26 elements, source and destination distinct", "values and missing-value marker are finite; packing between encode and decode is lossless", "integer fields: the largest valid value is below the largest value of nbits bits (the code warns otherwise)",
               "missing_value_used() is on (it is a mode switch)", "the dispatch by data type (EncodeMissingValue, DecodeMissingValue, mapping functions) and the exact missing count are covered by the native oracle",
               "the maximum over the whole field is described by contracts instantiated at an arbitrary element and at the witnesses")
    ctx.trusted += TB_C
    src = f"{REPO}/src/fstd98/fst_missing.c"
    t = cpp(src, incs=[f"{VERIF}/stubs"])
    tasks = [("native", lambda: native(ctx, "missing", [lambda: ctx.cobj(src, extra=[f"-I{VERIF}/stubs", "-fsanitize=address"]), lambda: ctx.cobj(f"{REPO}/src/primitives/DlInterface.c")], link=["-fsanitize=address", "-ldl"], extra=["-fsanitize=address"]))]
    for k in TY:
        tasks += [(f"encode {k}", lambda k=k: encode(ctx, k, t)), (f"anal {k}", lambda k=k: anal(ctx, k, t)), (f"decode {k}", lambda k=k: decode(ctx, k, t)), (f"trip {k}", lambda k=k: trip(ctx, k))]
    ctx.parallel(tasks)
    return "proof", "for each of the eight element types: encode puts a code above every valid value exactly at the missing elements, decode replaces exactly the field maximum, hence the round trip; CBMC on loops cut at invariants, callees by contract"
