from specs.common import *

G = r'''
struct jar{vp_i8 size_elem,top,bot,opt; void *ptr;}; struct __class_rmn_jar_Jar_t{struct jar *_data; void *_vptr;};
static int debug_mode; void *malloc(unsigned long); void free(void*);
static int g_fail,g_frees; static void *g_new,*g_freed; static unsigned long g_asked;
static void *libc_malloc(vp_i8 n){ g_asked=n; return vp_int()?g_new:(void*)0; } static void libc_free(void*p){ g_frees++; g_freed=p; }
static struct jar J; static struct __class_rmn_jar_Jar_t CL={&J,0}; static vp_i8 *g_c,*g_o; static vp_i8 g_n,g_top,g_bot,g_k,g_u,g_v,g_bits,g_pos,g_sz,g_no;
static vp_ch *g_ob; static vp_i8 g_b; static vp_ch g_bu,g_bv;
#define LIM (1L<<40)
static void setup(void){ g_n=vp_long(); VP_ASSUME(g_n>=1&&g_n<LIM); g_c=malloc(8*(unsigned long)g_n); J.ptr=vp_int()?g_c:(void*)0; J.size_elem=g_n; g_top=J.top=vp_long(); g_bot=J.bot=vp_long(); J.opt=vp_int()&1; VP_ASSUME(g_top>=0&&g_top<=g_n&&g_bot>=0&&g_bot<=g_n);
  g_k=vp_long(); VP_ASSUME(g_k>=0&&g_k<g_n); g_u=g_c[g_k]; g_bits=vp_long(); VP_ASSUME(g_bits>=0&&g_bits<LIM); }
'''


def names(t, fn):
    """loop texts of the scalarised array assignments of fn, in order, with their index variable and written base"""
    out = []
    b = body_of(t, fn)
    for l in list_loops(b):
        x = b[l[1]:l[2]]
        s = re.search(r"if \((S_\d+) > (\w+)\) goto", x)
        if not s or s.group(2) == "0":
            continue
        w = [ln for ln in x.split(";") if "=" in ln and not re.search(r"^\s*S_\d+ =", ln) and "goto" not in ln.split("=")[0][-0:] ]
        tgt = re.search(r"\*\(vp_\w+ \*\)\(\(char \*\) (\w+) \+[^=]*=|\(\((vp_\w+) \*\) (\w+)\.data\)\[", x)
        base = tgt.group(1) or tgt.group(3)
        out.append((s.group(1), s.group(2), base, bool(tgt.group(3)), x))
    return out


def sel(x):
    """regex selecting the loop whose text is x (by its exit label)"""
    return r"goto %s;" % re.search(r"goto (\w+);", x).group(1)


def put(ctx, t):
    fn = "jar_put_into"
    L = []
    seen_tmp = None
    for S, hi, base, tmp, x in names(t, fn):
        rng = f"{S}>=0&&{S}<={hi}+1"
        if tmp:
            seen_tmp = base
            L.append(Loop([rng, f"!(g_k>=insertion_pos&&g_k<insertion_pos+size_elem&&{S}>g_k-insertion_pos)||((vp_i8*){base}.data)[g_k-insertion_pos]==g_v", f"{hi}==size_elem-1"],
                          name="read", sel=sel(x), mem={base: f"__CPROVER_havoc_object({base}.data);"}, lemma=f"if({S}<={hi}&&{S}==g_k-insertion_pos) VP_ASSUME(g_o[{S}]==g_v);"))
        elif re.search(r"= 0;", x):
            L.append(Loop([f"{S}>=g_top+1&&{S}<={hi}+1&&{hi}==insertion_pos", f"g_c[g_k]==((g_k>=g_top&&g_k<{S}-1)?0:g_u)"], name="zero", sel=sel(x), mem={base: "__CPROVER_havoc_object(g_c);"}))
        else:
            # direct copy or copy from the temporary
            src = f"((vp_i8*){seen_tmp}.data)" if seen_tmp else "g_o"
            L.append(Loop([rng, f"{hi}==size_elem-1", f"g_c[g_k]==((g_k>=insertion_pos&&g_k<insertion_pos+{S})?g_v:(g_k>=g_top&&g_k<insertion_pos)?0:g_u)",
                           ], name="write", sel=sel(x), mem={base: "__CPROVER_havoc_object(g_c);"}))
    c = cut_loops(t, fn, L)
    h = r'''int main(){ setup(); g_no=(g_bits+63)/64; g_o=malloc(8*(unsigned long)(g_no>0?g_no:1)); vp_i8 p=vp_long(); int hp=vp_int()&1; VP_ASSUME(p>-LIM&&p<LIM); g_pos=hp?p-1:g_top; if(g_k>=g_pos&&g_k-g_pos<g_no) g_v=g_o[g_k-g_pos];
  int r=jar_put_into(&CL,g_o,g_bits,hp?&p:(vp_i8*)0); int ok=J.ptr!=0&&g_pos>=0&&g_pos+g_no<=g_n;
  VP_ASSERT(!!r==ok,"an insertion succeeds exactly when the jar is valid and the object fits at a valid position"); VP_ASSERT(J.size_elem==g_n&&(J.ptr==0||J.ptr==g_c),"capacity and storage unchanged");
  VP_ASSERT(J.bot==g_bot,"the extraction point does not move"); VP_ASSERT(J.top==(ok?g_pos+g_no:g_top),"the top is the end of the inserted object, unchanged on failure");
  VP_ASSERT(!ok||g_k<g_pos||g_k>=g_pos+g_no||g_c[g_k]==g_v,"the object is stored at its position, element by element"); VP_ASSERT(!ok||!(g_k>=g_top&&g_k<g_pos)||g_c[g_k]==0,"skipped elements are zero");
  VP_ASSERT((ok&&g_k>=g_pos&&g_k<g_pos+g_no)||(ok&&g_k>=g_top&&g_k<g_pos)||g_c[g_k]==g_u,"every other element is unchanged, all of them on failure"); VP_REACH("end"); }'''
    run_cbmc(ctx, fn, c + h, fn, unwind=3, opts=["--pointer-check"], timeout=400)


def get(ctx, t):
    fn = "jar_get_outof"
    L, tmps = [], None
    for S, hi, base, tmp, x in names(t, fn):
        if "vp_i1" in x:
            continue            # at most seven bytes: unrolled completely (unwinding assertion)
        if tmp:
            tmps = base
            L.append(Loop([f"{S}>=0&&{S}<={hi}+1&&{hi}==size_elem_down-1", f"!(g_b<64*LIM&&{S}>g_b/8&&g_b/8<size_elem_down)||((vp_i8*){base}.data)[g_b/8]==g_v"], name="read", sel=sel(x), mem={base: f"__CPROVER_havoc_object({base}.data);"}))
        else:
            L.append(Loop([f"{S}>=0&&{S}<={hi}+1&&{hi}==size_elem_down-1", f"g_b/8<{S}?g_o[g_b/8]==g_v:g_ob[g_b]==g_bu"], name="write", sel=sel(x), mem={base: "__CPROVER_havoc_object(g_o);"}))
    c = cut_loops(t, fn, L)
    h = r'''int main(){ setup(); VP_ASSUME((g_bits&7)==0); vp_i8 down=g_bits/64,up=(g_bits+63)/64; g_no=up; g_o=malloc(8*(unsigned long)(up+1)); g_ob=(vp_ch*)g_o; g_b=vp_long(); VP_ASSUME(g_b>=0&&g_b<8*up+8); g_bu=g_ob[g_b];
  vp_i8 p=vp_long(); int hp=vp_int()&1; VP_ASSUME(p>-LIM&&p<LIM); g_pos=hp?p-1:g_bot; if(g_pos>=0&&g_pos<=g_n&&g_b/8<g_n-g_pos){ g_v=g_c[g_pos+g_b/8]; g_bv=((vp_ch*)&g_v)[g_b&7]; }
  int r=jar_get_outof(&CL,g_o,g_bits,hp?&p:(vp_i8*)0); int ok=J.ptr!=0&&g_pos>=0&&g_pos+up<=g_top;
  VP_ASSERT(!!r==ok,"an extraction succeeds exactly when the jar is valid and holds enough data at a valid position"); VP_ASSERT(J.size_elem==g_n&&(J.ptr==0||J.ptr==g_c)&&J.top==g_top,"capacity, storage and top unchanged");
  VP_ASSERT(J.bot==(ok?g_pos+up:g_bot),"the extraction point moves past the object, not at all on failure"); VP_ASSERT(g_c[g_k]==g_u,"the jar contents are unchanged");
  VP_ASSERT(!ok||g_b>=g_bits/8||g_ob[g_b]==g_bv,"every byte of the object is the byte stored at its position"); VP_ASSERT((ok&&g_b<g_bits/8)||g_ob[g_b]==g_bu,"nothing past the object is written, nothing at all on failure"); VP_REACH("end"); }'''
    run_cbmc(ctx, fn, c + h, fn, unwind=9, opts=["--pointer-check"], timeout=400)


def small(ctx, t):
    h = r'''int main(){ setup(); struct jar o=J; int w=vp_int(); VP_ASSUME(w>=0&&w<=9); vp_i8 m=vp_long(); VP_ASSUME(m>=0&&m<LIM); g_new=g_o=malloc(8); int mi=vp_int(); VP_ASSUME(mi>=0); vp_i8 r;
  if(w==0){ r=jar_new_i8(&CL,m); VP_ASSERT(o.ptr==0||(r==0&&J.ptr==o.ptr&&J.top==o.top&&J.bot==o.bot&&J.size_elem==o.size_elem&&J.opt==o.opt),"a jar in use is not re-created"); VP_ASSERT(o.ptr!=0||(r!=0)==(J.ptr!=0),"creation succeeds exactly when storage was obtained"); VP_ASSERT(r==0||(J.ptr==g_new&&g_asked==8*(unsigned long)m&&J.size_elem==m&&J.top==0&&J.bot==0&&J.opt==0),"a new jar is empty, owns its storage of the stated capacity"); }
  else if(w==1){ r=jar_shape_with(&CL,g_c,mi); VP_ASSERT((r!=0)==(o.ptr==0),"shaping succeeds on a free jar only"); VP_ASSERT(r!=0||(J.ptr==o.ptr&&J.top==o.top&&J.bot==o.bot&&J.size_elem==o.size_elem&&J.opt==o.opt),"a jar in use is unchanged"); VP_ASSERT(r==0||(J.ptr==g_c&&J.top==mi&&J.bot==0&&J.size_elem==mi&&J.opt==1),"a shaped jar is full, at its start, does not own the array"); }
  else if(w==2){ jar_reset(&CL); VP_ASSERT(J.top==0&&J.bot==0&&J.size_elem==g_n&&J.ptr==o.ptr&&J.opt==o.opt,"reset empties the jar and keeps the storage"); }
  else if(w==3){ r=jar_free(&CL); VP_ASSERT(r==(o.ptr?0:-1),"free reports whether there was storage"); VP_ASSERT(g_frees==(o.ptr&&o.opt==0)&&(g_frees==0||g_freed==o.ptr),"storage is released exactly once, by its owner only"); VP_ASSERT(J.ptr==0&&J.top==0&&J.bot==0&&J.size_elem==0&&J.opt==0,"a freed jar is empty and reusable"); }
  else if(w==4){ jar_final(&J); VP_ASSERT(g_frees==(o.ptr&&o.opt==0)&&(g_frees==0||g_freed==o.ptr),"storage is released exactly once, by its owner only"); VP_ASSERT(J.ptr==0&&J.top==0&&J.bot==0&&J.size_elem==0&&J.opt==0,"a finalised jar is empty"); }
  else if(w==5){ r=jar_avail(&CL); VP_ASSERT(r==(o.ptr?o.top-o.bot:-1),"available elements"); } else if(w==6){ r=jar_top(&CL); VP_ASSERT(r==(o.ptr?o.top:-1),"top"); }
  else if(w==7){ r=jar_bot(&CL); VP_ASSERT(r==(o.ptr?o.bot:-1),"bottom"); } else if(w==8){ r=jar_size(&CL); VP_ASSERT(r==(o.ptr?o.size_elem:-1),"size"); } else { r=jar_is_valid(&CL); VP_ASSERT((r!=0)==(o.ptr!=0),"valid"); }
  VP_ASSERT(w<=4||(J.ptr==o.ptr&&J.top==o.top&&J.bot==o.bot&&J.size_elem==o.size_elem&&J.opt==o.opt),"queries change nothing"); VP_ASSERT(g_c[g_k]==g_u,"no operation here touches the contents"); VP_REACH("end"); }'''
    run_cbmc(ctx, "jar bookkeeping", t + h, "jar_new_i8 jar_shape_with jar_reset jar_free jar_final jar_avail jar_top jar_bot jar_size jar_is_valid")


def strings(ctx, t):
    t = re.sub(r"_vptr->(insert|extract) ", r"_vptr->\1", t)
    pre = r'''
struct vt; static vp_i8 s_bits,s_p; static void *s_o; static int s_hp,s_r,s_w;
static vp_i4 s_ins(struct __class_rmn_jar_Jar_t*j,void*o,vp_i8 b,vp_i8*p){ s_w=1; s_o=o; s_bits=b; s_hp=p!=0; if(p)s_p=*p; return s_r; } static vp_i4 s_ext(struct __class_rmn_jar_Jar_t*j,void*o,vp_i8 b,vp_i8*p){ s_w=2; s_o=o; s_bits=b; s_hp=p!=0; if(p)s_p=*p; return s_r; }
'''
    h = r'''int main(){ setup(); s_r=vp_int()&1; vp_ch buf[4]; vp_i8 len=vp_long(); VP_ASSUME(len>=0&&len<(1<<27)); vp_i8 p=vp_long(); int hp=vp_int()&1; int w=vp_int()&1; VT.insert=s_ins; VT.extract=s_ext; CL._vptr=&VT;
  int r=w?jar_put_string_into(&CL,buf,hp?&p:(vp_i8*)0,len):jar_get_string_outof(&CL,buf,hp?&p:(vp_i8*)0,len); VP_ASSERT(r==s_r&&s_w==(w?1:2)&&s_o==buf&&s_bits==8*len&&s_hp==hp&&(!hp||s_p==p),"string forms insert/extract eight bits per character at the stated position"); VP_REACH("end"); }'''
    g = G.replace("void *_vptr;};", "struct vt *_vptr;}; struct vt{vp_i4(*insert)(struct __class_rmn_jar_Jar_t*,void*,vp_i8,vp_i8*); vp_i4(*extract)(struct __class_rmn_jar_Jar_t*,void*,vp_i8,vp_i8*);}; static struct vt VT;").replace("struct vt{", "struct vt{", 1)
    run_cbmc(ctx, "jar strings", FPRE + g + pre.replace("struct vt; ", "") + func_text(t, "jar_put_string_into") + "\n" + func_text(t, "jar_get_string_outof") + h, "jar_put_string_into jar_get_string_outof")


def seq(ctx):
    """histories: over the contracts of put and get (arbitrary jar satisfying the invariant)"""
    h = r'''
struct S{long top,bot,n;}; static int put(struct S*s,long p,long z){ if(p<0||p+z>s->n) return 0; s->top=p+z; return 1; } static int get(struct S*s,long p,long z){ if(p<0||p+z>s->top) return 0; s->bot=p+z; return 1; }
int main(){ struct S s; s.top=vp_long(); s.bot=vp_long(); s.n=vp_long(); VP_ASSUME(s.n>=0&&s.n<(1L<<40)&&s.top>=0&&s.top<=s.n&&s.bot>=0&&s.bot<=s.n); long z=vp_long(),p=vp_long(); VP_ASSUME(z>=0&&z<(1L<<40)&&p>-(1L<<40)&&p<(1L<<40)); struct S o=s; long pos=s.top;
  int a=put(&s,vp_int()?p:s.top,z); VP_ASSERT(s.top>=0&&s.top<=s.n&&s.bot==o.bot,"invariant preserved by insertion"); o=s; int b=get(&s,vp_int()?p:s.bot,z); VP_ASSERT(s.top==o.top&&s.bot>=0&&s.bot<=s.n&&(!b||s.bot<=s.top),"invariant preserved by extraction");
  /* appending z at the top, with everything before extracted, makes exactly that object the next one to come out, whatever is appended after it */
  s.top=pos; s.bot=pos; if(put(&s,s.top,z)){ long k=vp_long(); VP_ASSUME(k>=0&&k<(1L<<40)); put(&s,s.top,k); VP_ASSERT(s.top>=pos+z,"later appends start after it"); int g=get(&s,s.bot,z); VP_ASSERT(g&&s.bot==pos+z,"first in, first out"); } VP_REACH("end"); }'''
    run_cbmc(ctx, "histories", PRELUDE + h, "jar_put_into jar_get_outof")


def run(ctx):
    ctx.under_contract("jar_put_into", "jar_get_outof", "jar_new_i8", "jar_shape_with", "jar_reset", "jar_free", "jar_final", "jar_avail", "jar_top", "jar_bot", "jar_size", "jar_is_valid", "jar_put_string_into", "jar_get_string_outof")
    ctx.assume("jars of less than 2^40 elements; object sizes are whole bytes, not negative", "the inserted object is readable up to a multiple of 8 bytes (jar_put_into copies whole 64-bit elements)",
               "malloc and free behave as specified by C", "array descriptors: rank-1 pointers with the bounds C_F_POINTER sets")
    ctx.trusted += TB_F
    t = fsrc(ctx, "serializer/jar_mod.F90")
    full = FPRE + G + "".join(f + "\n" for n, f in ftn.split_funcs(t).items() if n in ("jar_put_into", "jar_get_outof"))
    def one(n):
        return FPRE + G + func_text(t, n) + "\n"
    sm = FPRE + G + "".join(func_text(t, n) + "\n" for n in ("jar_new_i8", "jar_shape_with", "jar_reset", "jar_free", "jar_final", "jar_avail", "jar_top", "jar_bot", "jar_size", "jar_is_valid"))
    src = f"{REPO}/src/serializer/jar_mod.F90"
    ctx.parallel([("native", lambda: native_jar(ctx, src)), ("put", lambda: put(ctx, one("jar_put_into"))), ("get", lambda: get(ctx, one("jar_get_outof"))),
                  ("small", lambda: small(ctx, sm)), ("strings", lambda: strings(ctx, t)), ("seq", lambda: seq(ctx))])
    return "proof", "insert and extract as exact state transformers of (content, top, bot) for every jar state, position and size, memory accesses inside the storage; CBMC on gfortran's GENERIC form with the copy loops cut at invariants"


def native_jar(ctx, src):
    """model-based histories on the compiled module under AddressSanitizer"""
    asan = ["-fsanitize=address"]
    exe = ctx.path("exe_jar")
    o1 = ctx.fobj(src, extra=asan)
    o2 = ctx.fobj(f"{VERIF}/native/jar.F90", extra=asan)
    rc, o, e = sh(["gfortran", "-o", exe, o2, o1] + asan, timeout=120, cwd=ctx.work)
    if rc:
        raise ToolError("link jar: " + e[-800:])
    ctx.native("jar", exe)
