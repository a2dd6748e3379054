"""Contracts of the standard-file layer (fstd98.c): descriptors to directory keys and back, searches, packing dispatch."""
from specs.X01 import *

FB = r'''
/* the record buffer: its keys g_w, word g_j of the data that follow, any other word */
static uint32_t g_w[18],g_pay,g_src,g_x1,g_x2; static int g_j,g_kl; static buffer_interface g_bh; static long g_balloc=-1,g_bn; static int g_zero;
static uint32_t *vp_bw(int i){ VP_ASSERT(g_balloc>=0,"the buffer exists"); if(i>=0&&i<18) return &g_w[i]; VP_ASSUME(i>=0); /* sizes do not overflow */ if(i-g_kl==g_j) return &g_pay; uint32_t x; g_x1=x; return &g_x1; }
static uint32_t *vp_fw(uint32_t*p,long i){ if(i==g_j) return &g_src; uint32_t x; g_x2=x; return &g_x2; }
static int vp_pos(uint32_t*p){ return p==&g_pay?g_j:-1; }
static void *vp_allocb(long n){ VP_ASSUME(n>=632); g_balloc=n; return &g_bh; } static uint32_t g_fc[4]; static void *vp_allocf(long n){ g_fcn=n; return g_fc; }
static void *vp_zero(void*p,int c,long n){ if(p==(void*)&g_bh){ VP_ASSERT(c==0&&n<=g_balloc&&n>=160,"the keys and their surroundings are cleared"); for(int i=0;i<18;i++) g_w[i]=0; g_pay=0; g_zero=1; } return p; }
static void vp_cpy(void*d,const void*s,long n){ VP_ASSERT(d!=(void*)g_w&&d!=(void*)&g_bh,"data are not copied over the keys"); }
#define A6(c) ((((c)>='a'&&(c)<='z'?(c)-32:(c))-32)&0x3f)
static int vp_chr(const char*s,int k){ for(int i=0;i<=k;i++) if(s[i]==0) return ' '; return s[k]; }
static unsigned vp_code(const char*s,int from,int n){ unsigned v=0; for(int i=0;i<n;i++) v=v<<6|A6(vp_chr(s,from+i)); return v; }
static int vp_blank(const char*s,int n){ for(int i=0;i<n;i++) if(vp_chr(s,i)!=' ') return 0; return 1; }
static char g_t[20],g_n[20],g_e[20],g_g[20];
static void vp_txt(char*s){ for(int i=0;i<20;i++) { s[i]=(char)vp_uchar(); VP_ASSUME(s[i]>=0&&s[i]<127&&s[i]<='z'&&s[i]!=96); } s[19]=0; }
static int vp_max1(int x){ return x<1?1:x; }
'''


def sub_idx(body, pat, fn):
    """rewrite NAME[expr] (NAME matched by pat, its '[' last) as (*fn(...,expr))"""
    k = 0
    while True:
        m = re.compile(pat).search(body, k)
        if not m:
            return body
        o = m.end() - 1
        c = match(body, o)
        new = fn(m, body[o + 1:c])
        body = body[:m.start()] + new + body[c + 1:]
        k = m.start() + 2


def widening(body):
    """the copy of 8 or 16 bit elements made for the packer of signed integers, or for its result, seen through cells"""
    for m in reversed(list(re.finditer(r"\b(\w+)\s*=\s*(\(\s*(?:u?int(?:32_t)?|unsigned int)\s*\*\s*\)\s*)?(?:__builtin_)?alloca\s*\(", body))):
        w = m.group(1)
        if w not in ("field", "buffer"):
            body = body[:m.end()].rstrip("(").rstrip()[:-len("alloca")].removesuffix("__builtin_") + "vp_allocw(" + body[m.end():]
            body = sub_idx(body, r"(?<![\w>.])(%s)\s*\[" % w, lambda m, x: f"(*vp_wd({m.group(1)},{x}))")
    for m in sorted({(m.group(1), m.group(2)) for m in re.finditer(r"\b(\w+)\s*=\s*\(\s*(short|signed char)\s*\*\s*\)\s*field\b", body)}):
        body = sub_idx(body, r"(?<![\w>.])(%s)\s*\[" % m[0], lambda q, x: f"(*vp_f{'s' if m[1] == 'short' else 'b'}({q.group(1)},{x}))")
    return body


def writer(ctx, wide=False):
    """c_fstecr with its record buffer seen through cells"""
    def go():
        t = xdftext(ctx, "fstd98.c")
        for f in ("crack_std_parms", "print_std_parms"):
            t = replace_body(t, f, "")
        fn = "c_fstecr"
        s, b, e = find_func(t, fn)
        body = widening(t[b:e + 1]) if wide else t[b:e + 1]
        body = re.sub(r"(\(\s*buffer_interface_ptr\s*\)\s*)(?:__builtin_)?alloca\s*\(", r"\1vp_allocb(", body)
        body = re.sub(r"(\w+\s*=\s*\(\s*buffer_interface_ptr\s*\)\s*)(?:malloc)\s*\(", r"\1vp_allocb(", body)
        body = re.sub(r"(?<!\w)(?:__builtin_)?alloca\s*\(", "vp_allocf(", body)
        body = re.sub(r"\bmemset\s*\(", "vp_zero(", body)
        body = re.sub(r"\bmemcpy\s*\(", "vp_cpy(", body)
        body = sub_idx(body, r"\bbuffer\s*->\s*data\s*\[", lambda m, x: f"(*vp_bw({x}))")
        body = re.sub(r"&\s*\(?\s*buffer\s*->\s*data\b\s*\)?", "g_w", body)
        body = re.sub(r"\bbuffer\s*->\s*data\s*\+\s*((?:\w+\s*\+\s*)*\w+)", r"vp_bw(\1)", body)
        body = sub_idx(body, r"(?<![\w>.])(field)\s*\[", lambda m, x: f"(*vp_fw({m.group(1)},{x}))")
        body = re.sub(r"\bpackfunc\s*\(", "vp_packfunc((void*)packfunc,", body)
        t = t[:b] + body + t[e + 1:]
        inv = ["i>=0", "i<=g_j||g_pay==g_src", "i>g_j||g_pay==g_pay0"] + [f"g_w[{k}]==g_w0[{k}]" for k in range(18)]
        t = cut_loops(t, fn, [Loop(inv, sel=r"vp_bw", all=True, pre="for(int q=0;q<18;q++) g_w0[q]=g_w[q]; g_pay0=g_pay;", mem={"*": "{uint32_t z; g_pay=z;}"}, keep=("keys_len", "lngw"), name="copy"),
                              Loop(["nb_remap>0||datyp==g_dt0"], sel=r"remap_table", name="remap", optional=True, pre="int g_dt0=datyp;", mem={"*": ""}, keep=("in_datyp",)),
                              Loop(["i>=0", "i<=g_e||vp_widened()"], sel=r"vp_wd\s*\(", all=True, optional=True, mem={"*": "g_wel=vp_int();"}, keep=("ni", "nj", "nk", "nbits", "datyp", "keys_len"), name="widen") if wide else
                              Loop(["i>=0"], sel=r"field3\s*\[", all=True, optional=True, mem={"*": ""}, keep=("ni", "nj", "nk", "nbits", "datyp", "keys_len"), name="widen")])
        return t
    return ctx._once("fstwriter%d" % wide, go)


HDRW = r'''
typedef struct { int id; const void*u; int hp,pp,n,nb,off,st,op; } vp_call; static vp_call g_call[8]; static int g_nc; static long g_fcn; static uint32_t g_w0[18],g_pay0;
'''
WKEYS = r'''
static void vp_unused(void){} int sprintf(char*s,const char*f,...){ return 0; }
static int g_std,g_ro,g_v89,g_seq,g_open,g_fopen,g_puts,g_rcput,g_filt=1,g_rwh,g_srch; static file_table_entry g_fe; static general_file_info g_gi; static uint32_t g_field[4];
static int a_iun,a_date,a_deet,a_npas,a_ni,a_nj,a_nk,a_i1,a_i2,a_i3,a_g1,a_g2,a_g3,a_g4,a_dt,a_rw,a_npak; static unsigned g_dv; static int g_incd;
void incdatr_(int32_t*r,int32_t*d,double*h){ VP_ASSERT(*d==a_date,"the date of validity starts from the origin date"); VP_ASSERT(a_deet>0&&a_npas>0,"it differs from it when time has elapsed"); g_incd++; *r=(int32_t)g_dv; }
int compact_integer(void*a,void*b,void*c,int d,int e,int f,int g,int h){ return vp_int(); } int compact_short(void*a,void*b,void*c,int d,int e,int f,int g,int h){ return vp_int(); } int compact_char(void*a,void*b,void*c,int d,int e,int f,int g,int h){ return vp_int(); }
static void vp_packfunc(void*pf,...){ } int armn_compress(unsigned char*a,int b,int c,int d,int e,int f){ return vp_int(); } void c_armn_compress_setswap(int s){} int c_armn_compress32(unsigned char*a,float*b,int c,int d,int e,int f){ return vp_int(); }
void ieeepak_(void*a,void*b,int*c,int*d,int*e,int*f,int*g){} int32_t c_float_packer(float*a,int32_t b,int32_t*c,int32_t*d,int32_t e){ return vp_int(); } void c_float_packer_params(int32_t*a,int32_t*b,int32_t*c,int32_t*d,int32_t e){ *a=16; *b=vp_int(); VP_ASSUME(*b>=0&&*b<(1<<28)); }
int EncodeMissingValue(void*a,void*b,int c,int d,int e,int f,int g,int h){ return vp_int(); }
'''


def wkeys(ctx):
    """a record written carries the descriptors given"""
    t = writer(ctx)
    fn = "c_fstecr"
    for f in ("memcpy_8_16", "memcpy_16_8", "memcpy_16_32", "memcpy_32_16"):
        t = replace_body(t, f, "")
    t = replace_body(t, "c_fstinf", 'g_srch++; VP_ASSERT(!g_filt,"the record to rewrite is sought without the filter"); VP_ASSERT(iun==a_iun&&datev==-1&&ip1==a_i1&&ip2==a_i2&&ip3==a_i3,"the record to rewrite has the same level, hour and identifier"); for(int i=0;i<12;i++) VP_ASSERT(in_etiket[i]==vp_chr(g_e,i)&&(i>=4||in_nomvar[i]==vp_chr(g_n,i))&&(i>=2||in_typvar[i]==vp_chr(g_t,i)),"the same label, name and type"); return g_rwh;')
    post = r'''
int c_xdfput(int iun,int h,buffer_interface_ptr b){ stdf_dir_keys*q=(stdf_dir_keys*)g_w; g_puts++; VP_ASSERT(iun==a_iun&&b==&g_bh&&b->iun==a_iun,"the record goes to the file"); VP_ASSERT(g_zero,"the record was cleared first"); VP_ASSERT((a_rw&&!g_seq)?(g_srch==1&&h==(g_rwh>=0?g_rwh:0)):h==0,"a rewrite replaces the record found, anything else is a new record"); VP_ASSERT(g_filt,"the filter is back");
 VP_ASSERT(q->deleted==0&&q->select==1&&q->ubc==0&&q->levtyp==0&&q->pad1==0&&q->pad2==0&&q->pad3==0&&q->pad4==0&&q->pad5==0&&q->pad6==0&&q->pad7==0,"a live record");
 VP_ASSERT(q->ni==a_ni&&q->nj==a_nj&&q->nk==vp_max1(a_nk),"the dimensions as given"); VP_ASSERT(q->deet==a_deet&&q->npas==a_npas,"deet and npas as given"); VP_ASSERT(q->ip1==a_i1&&q->ip2==a_i2&&q->ip3==a_i3,"ip1, ip2 and ip3 as given");
 VP_ASSERT(q->ig1==a_g1&&(q->ig2a<<16|q->ig2b<<8|q->ig2c)==a_g2&&q->ig3==a_g3&&q->ig4==a_g4,"ig1 to ig4 as given"); VP_ASSERT(q->gtyp==vp_chr(g_g,0),"the grid type as given"); VP_ASSERT(q->typvar==vp_code(g_t,0,2),"the type as given"); VP_ASSERT(q->nomvar==vp_code(g_n,0,4),"the name as given"); VP_ASSERT(q->etik15==vp_code(g_e,0,5)&&q->etik6a==vp_code(g_e,5,5)&&q->etikbc==vp_code(g_e,10,2),"the label as given");
 int el=a_deet>0&&a_npas>0; unsigned dv=el?g_dv:(unsigned)a_date; VP_ASSERT(g_incd==el,"time elapsed"); VP_ASSERT(q->date_stamp==8*(dv/10)+dv%10,"the date of validity"); return g_rcput; }
void *xdf_set_file_filter(int iun,void*f){ void*o=g_filt?(void*)1:0; g_filt=f!=0; return o; }
#define IN(x,a,b) ((x)>=(a)&&(x)<=(b))
int main(){ vp_txt(g_t); vp_txt(g_n); vp_txt(g_e); vp_txt(g_g); g_j=vp_int(); VP_ASSUME(g_j>=0); g_std=vp_int()&1; g_ro=vp_int()&1; g_v89=vp_int()&1; g_seq=vp_int()&1; g_open=vp_int()&1; g_fopen=vp_int()&1; g_rcput=vp_int(); g_rwh=vp_int(); g_dv=vp_uint(); g_fe.cur_info=&g_gi; g_gi.attr.std=g_std; g_gi.attr.read_only=g_ro; g_fe.fstd_vintage_89=g_v89; g_fe.xdf_seq=g_seq; g_fe.primary_len=9; g_fe.info_len=vp_int(); VP_ASSUME(g_fe.info_len>=1&&g_fe.info_len<=8); g_kl=2*(9+g_fe.info_len); file_table[0]=&g_fe;
 xdf_short=vp_int()&1; xdf_byte=vp_int()&1; xdf_double=vp_int()&1; image_mode_copy=vp_int()&1; nb_remap=vp_int();
 a_iun=vp_int(); a_date=vp_int(); a_deet=vp_int(); a_npas=vp_int(); a_ni=vp_int(); a_nj=vp_int(); a_nk=vp_int(); a_i1=vp_int(); a_i2=vp_int(); a_i3=vp_int(); a_g1=vp_int(); a_g2=vp_int(); a_g3=vp_int(); a_g4=vp_int(); a_dt=vp_int(); a_rw=vp_int(); a_npak=vp_int(); VP_ASSUME(a_npak>-(1<<30));
 int rc=c_fstecr(g_field,0,a_npak,a_iun,a_date,a_deet,a_npas,a_ni,a_nj,a_nk,a_i1,a_i2,a_i3,g_t,g_n,g_e,g_g,a_g1,a_g2,a_g3,a_g4,a_dt,a_rw);
 int could=g_open&&g_fopen&&g_std&&!g_v89&&!g_ro; int ok=could&&IN(a_ni,1,0xffffff)&&IN(a_nj,1,0xffffff)&&vp_max1(a_nk)<=0xfffff&&IN(a_deet,0,0xffffff)&&IN(a_npas,0,0x3ffffff)&&IN(a_g1,0,0xffffff)&&IN(a_g2,0,0xffffff)&&IN(a_g3,0,0xffffff)&&IN(a_g4,0,0xffffff)&&IN(a_i1,0,0xfffffff)&&IN(a_i2,0,0xfffffff)&&IN(a_i3,0,0xfffffff);
 if(!ok) VP_ASSERT(rc<0&&!g_puts,"a descriptor that does not fit, or a file that may not be written, is refused"); VP_ASSERT(g_puts<=1&&(g_puts?rc==g_rcput:rc<0),"one record is written, or the request refused"); if(g_puts==0) VP_ASSERT(rc<0,"a refusal is reported"); VP_ASSERT(g_filt,"the filter of the file is kept"); VP_REACH("end"); }'''
    t = replace_body(t, "fnom_index", "return g_fopen?0:-1;") if has_func(t, "fnom_index") else t
    pre = WKEYS
    ext = []
    if not has_func(t, "fnom_index"):
        ext.append("int fnom_index(const int iun){ return g_fopen?0:-1; }")
    if not has_func(t, "file_index"):
        ext.append("int file_index(const int iun){ return g_open?0:%s; }" % const(ctx, "ERR_NO_FILE"))
    return t, pre, ext, post


def run_wkeys(ctx):
    t, pre, ext, post = wkeys(ctx)
    m = re.search(r"^.*\bfile_table_entry_ptr\s+file_table\s*\[", t, re.M)
    # stubs that mention the types of the file come after its declarations
    s, b, e = find_func(t, "c_fstecr")
    k = t.index("static void str_cp_init") if "static void str_cp_init" in t else decl_start(t, s)
    decl = "\nstatic int vp_dummy;\n" + HDRW + FB + pre_vars(pre) + "\n"
    txt = PRELUDE + t[:k] + decl + "static file_table_entry_ptr vp_dummy2;" + t[k:] + "\n" + pre_funcs(pre) + "\n".join(ext) + ("" if "file_table[MAX" in t else "") + post
    run_cbmc(ctx, "c_fstecr keys", txt, "c_fstecr", **B)


def pre_vars(p):
    return "\n".join(l for l in p.splitlines() if l.startswith("static int g_") or l.startswith("static int a_"))


def pre_funcs(p):
    return "\n".join(l for l in p.splitlines() if not (l.startswith("static int g_") or l.startswith("static int a_")))


def program(ctx, t, fn, decls, stubs, main, ext=()):
    """prelude, declarations placed before the first function of the file, the code, stubs and harness"""
    k = t.index("static void str_cp_init") if "static void str_cp_init" in t else decl_start(t, find_func(t, fn)[0])
    return PRELUDE + t[:k] + "\n" + decls + "\n" + t[k:] + "\n" + stubs + "\n".join(ext) + main


def finders(ctx, t):
    ext = []
    if not has_func(t, "fnom_index"):
        ext.append("int fnom_index(const int iun){ return g_fopen?0:-1; }")
    if not has_func(t, "file_index"):
        ext.append("int file_index(const int iun){ return g_open?g_ix:%s; }" % const(ctx, "ERR_NO_FILE"))
    return ext


SD = r'''
static int g_fopen,g_open,g_ix,g_pass,g_v[3],g_f1,g_f2,g_f3,g_lastok,g_nl,g_bp,g_lastrc; static file_table_entry g_fe; static uint32_t g_r[18],g_k[18],g_m[18]; static int a_d,a_1,a_2,a_3;
/* record r answers the request: every descriptor asked for is equal, the others are free; the last octal digit of a date (5-second steps) do not count */
static unsigned g_D,c_n,c_t,c_e1,c_e2,c_e3; static int b_n,b_t,b_e;
static void vp_codes(void){ unsigned u=a_d; g_D=8*(u/10)+u%10; c_n=vp_code(g_n,0,4); c_t=vp_code(g_t,0,2); c_e1=vp_code(g_e,0,5); c_e2=vp_code(g_e,5,5); c_e3=vp_code(g_e,10,2); b_n=vp_blank(g_n,4); b_t=vp_blank(g_t,2); b_e=vp_blank(g_e,10); }
static int vp_answers(uint32_t*r,int fl){ stdf_dir_keys*q=(stdf_dir_keys*)r; return (a_d==-1||(q->date_stamp>>3)==g_D>>3)&(a_1==-1||g_f1||q->ip1==(a_1&0xfffffff))&(a_2==-1||g_f2||q->ip2==(a_2&0xfffffff))&(a_3==-1||g_f3||q->ip3==(a_3&0xfffffff))&(b_n||q->nomvar==c_n)&(b_t||q->typvar==c_t)&(b_e||(q->etik15==c_e1&&q->etik6a==c_e2&&q->etikbc==c_e3)); }
static uint32_t *g_pk; static int g_same;
/* records found by the scan, keys r: those under the mask are the keys sought */
static int vp_sel(uint32_t*r,uint32_t*k,uint32_t*m){ uint32_t x=0; for(int i=2;i<18;i++) x|=(r[i]^k[i])&m[i]; return x==0; }
static int g_start,a_h;
'''


def search(ctx, which):
    """c_fstinfx asks for exactly the records that answer the request; c_fstinf starts from the beginning"""
    t = xdftext(ctx, "fstd98.c")
    fn = "c_fstinfx"
    for f in ("crack_std_parms", "print_std_parms", "init_ip_vals"):
        t = replace_body(t, f, "ip1s_flag=ip2s_flag=ip3s_flag=0; return 0;" if f == "init_ip_vals" else "")
    t = replace_body(t, "ip_is_equal", 'VP_ASSERT(ind>=1&&ind<=3,"one of the three"); stdf_dir_keys*q=(stdf_dir_keys*)g_r; int want=ind==1?a_1:ind==2?a_2:a_3,got=ind==1?q->ip1:ind==2?q->ip2:q->ip3; VP_ASSERT(target==want&&ip==got,"the level of the record is compared with the one sought"); return g_v[ind-1];')
    t = cut_loops(t, fn, [Loop(["lhandle==g_lastrc", "lhandle<0||g_lastok", "lhandle<0||nomatch||((!g_f1||a_1<0||g_v[0])&&(!g_f2||a_2<0||g_v[1])&&(!g_f3||a_3<0||g_v[2]))", "lhandle<0||vp_same18(pkeys)", "vp_msame(pmask)"], sel=r"ip_is_equal", name="levels",
                               mem={"*": "vp_hv(pkeys);"}, extra="g_lastrc=vp_int(); g_lastok=vp_int(); for(int q=0;q<3;q++) g_v[q]=vp_int();", keep=("ip1", "ip2", "ip3", "iun", "index", "pkeys", "pmask", "ip1s_flag", "ip2s_flag", "ip3s_flag", "f", "handle"))])
    stubs = r'''
int sprintf(char*s,const char*f,...){ return 0; } static int vp_bp(uint32_t*b,uint32_t*k,uint32_t*m,uint32_t*mm,int ix,int mode){ g_bp++; VP_ASSERT(ix==g_ix,"the search of this file"); VP_ASSERT(g_lastrc<0||k[0]==g_r[2],"goes on from the record found"); return 0; }
int c_xdfloc2(int iun,int h,uint32_t*k,int n,uint32_t*m){ VP_ASSERT(n==16&&iun==7,"the whole keys of a record"); if(a_d!=-1){ int same=(k[15]|7)==(g_D|7); VP_ASSERT(same,"the date of validity sought, 8 by 8"); VP_ASSUME(same); } uint32_t r[18]; for(int i=0;i<18;i++){ uint32_t x; r[i]=x; } uint32_t z=0; for(int i=0;i<16;i++) z|=(r[i+2]^k[i])&m[i]; VP_ASSERT((z==0)==vp_answers(r,0),"a record is selected when it answers the request, and only then");
  if(!g_nl){ VP_ASSERT(h==(a_h==-2?(g_fe.xdf_seq?-1:0):a_h),"the search starts where asked"); for(int i=0;i<16;i++){ g_k[i+2]=k[i]; g_m[i+2]=m[i]; } g_nl=1; } else VP_ASSERT(h==-1,"the search goes on"); g_lastok=0; g_lastrc=vp_int(); return g_lastrc; }
int c_xdfprm(int h,int*a,int*l,int*i,uint32_t*k,int n){ VP_ASSERT(h==g_lastrc&&n==16,"the descriptors of the record found"); for(int j=0;j<18;j++){ uint32_t x; g_r[j]=x; } VP_ASSUME(vp_answers(g_r,0)); for(int j=0;j<16;j++) k[j]=g_r[j+2]; for(int j=0;j<3;j++) g_v[j]=vp_int(); g_lastok=1; *a=vp_int(); *l=vp_int(); *i=vp_int(); return 0; }
'''
    decls = FB.replace("g_fcn=n;", "") + SD + r'''
static int vp_same18(uint32_t*p){ for(int i=0;i<16;i++) if(p[i]!=g_r[i+2]) return 0; return vp_answers(g_r,0); } static int vp_msame(uint32_t*m){ for(int i=0;i<16;i++) if(m[i]!=g_m[i+2]) return 0; return 1; } static void vp_hv(uint32_t*p){ for(int i=0;i<16;i++){ uint32_t x; p[i]=x; g_r[i+2]=x; } }
static int vp_bp(uint32_t*b,uint32_t*k,uint32_t*m,uint32_t*mm,int ix,int mode);
'''
    main = r'''int main(){ vp_txt(g_t); vp_txt(g_n); vp_txt(g_e); g_fopen=vp_int()&1; g_open=vp_int()&1; g_ix=vp_int(); VP_ASSUME(g_ix>=0); STDSEQ_opened=vp_int()&1; VP_ASSUME(g_ix<(STDSEQ_opened?127:1023)); g_fe.xdf_seq=vp_int()&1; g_fe.build_primary=(fn_b_p*)vp_bp; file_table[g_ix]=&g_fe; a_d=vp_int(); vp_codes(); a_1=vp_int(); a_2=vp_int(); a_3=vp_int(); a_h=vp_int(); g_f1=ip1s_flag=vp_int()&1; g_f2=ip2s_flag=vp_int()&1; g_f3=ip3s_flag=vp_int()&1; int ni=vp_int(),nj=vp_int(),nk=vp_int(),x=ni;
 int rc=WHAT; stdf_dir_keys*q=(stdf_dir_keys*)g_r; if(!g_open||!g_fopen) VP_ASSERT(rc<0&&!g_nl,"no file, no record"); if(a_h>0&&(a_h&(STDSEQ_opened?0x7F:0x3FF))!=g_ix) VP_ASSERT(rc<0&&!g_nl,"a handle of another file is refused"); else if(g_open&&g_fopen) VP_ASSERT(g_nl,"the file is searched");
 if(g_nl) VP_ASSERT(rc==g_lastrc,"the answer is that of the search"); if(rc>=0){ VP_ASSERT(g_nl&&g_lastok&&vp_answers(g_r,0),"the record found answers the request"); VP_ASSERT((!g_f1||a_1<0||g_v[0])&&(!g_f2||a_2<0||g_v[1])&&(!g_f3||a_3<0||g_v[2]),"and each level sought by its equivalents is one of them"); VP_ASSERT(ni==q->ni&&nj==q->nj&&nk==q->nk,"the dimensions of the record found"); }
 if(g_nl) VP_ASSERT(!ip1s_flag&&!ip2s_flag&&!ip3s_flag,"the lists of levels serve one search"); VP_REACH("end"); }'''
    nm, what = (("c_fstinfx", "c_fstinfx(a_h,7,&ni,&nj,&nk,a_d,g_e,a_1,a_2,a_3,g_t,g_n)"), ("c_fstinf", "(a_h=-2,c_fstinf(7,&ni,&nj,&nk,a_d,g_e,a_1,a_2,a_3,g_t,g_n))"))[which]
    run_cbmc(ctx, nm, program(ctx, t, fn, decls, stubs, main.replace("WHAT", what), finders(ctx, t)), nm, **B)


def prm(ctx):
    """c_fstprm and c_fstsui: descriptors read back from the directory entry"""
    t = xdftext(ctx, "fstd98.c")
    decls = r"""
static uint32_t g_r[18]; static int g_h,g_rcp,g_inc,g_fd,g_addr,g_lng,g_scan,g_h2; static double g_hh; static char g_t[4],g_n[6],g_e[14],g_g[2]; static int l_t,l_n,l_e;
"""
    stubs = r"""
void incdatr_(int32_t*r,int32_t*d,double*h){ g_inc++; g_hh=*h; VP_ASSERT(*d==g_fd,"the origin date is computed from the date of validity"); *r=g_h2; }
int c_xdfprm(int h,int*a,int*l,int*i,uint32_t*k,int n){ VP_ASSERT(h==g_h&&n==16,"the descriptors of this record"); if(g_rcp>=0) for(int j=0;j<16;j++) k[j]=g_r[j+2]; *a=g_addr; *l=g_lng; *i=vp_int(); return g_rcp; }
int c_xdfloc(int iun,int h,uint32_t*p,int n){ VP_ASSERT(iun==7&&h==-1&&n==0,"the next record of the same search"); g_scan++; return g_h; }
static int vp_len(const char*s,int n){ int i=0; while(i<n&&s[i]) i++; return i; }
#define CH(v,n,i) ((char)((((v)>>(6*((n)-1-(i))))&0x3f)+32))
"""
    main = r"""int main(){ for(int i=0;i<18;i++){ uint32_t x; g_r[i]=x; } stdf_dir_keys*q=(stdf_dir_keys*)g_r; g_h=vp_int(); g_rcp=vp_int(); g_addr=vp_int(); g_lng=vp_int(); g_h2=vp_int(); VP_ASSUME(g_rcp>=0); g_r[0]=g_r[1]=0; g_fd=(q->date_stamp>>3)*10+(q->date_stamp&7);
 int o[30]; for(int i=0;i<30;i++) o[i]=vp_int(); for(int i=0;i<14;i++){ g_e[i]=(char)vp_uchar(); if(i<6) g_n[i]=(char)vp_uchar(); if(i<4) g_t[i]=(char)vp_uchar(); } g_e[13]=g_n[5]=g_t[3]=0; l_t=vp_len(g_t,2); l_n=vp_len(g_n,4); l_e=vp_len(g_e,12); char t0=g_t[2],n0=g_n[4],e0=g_e[12];
 int rc=c_fstprm(g_h,o,o+1,o+2,o+3,o+4,o+5,o+6,o+7,o+8,o+9,o+10,g_t,g_n,g_e,g_g,o+11,o+12,o+13,o+14,o+15,o+16,o+17,o+18,o+19,o+20,o+21); VP_ASSERT(rc==g_rcp,"the status of the directory");
 int el=q->deet!=0&&q->npas!=0; VP_ASSERT(g_inc==el&&o[0]==(el?g_h2:g_fd),"the origin date goes back from the date of validity by the time elapsed"); VP_ASSERT(o[19]==g_fd,"the date of validity"); if(el) VP_ASSERT(g_hh<0,"backwards");
 VP_ASSERT(o[1]==q->deet&&o[2]==q->npas&&o[3]==q->ni&&o[4]==q->nj&&o[5]==q->nk&&o[6]==q->nbits&&o[7]==q->datyp&&o[8]==q->ip1&&o[9]==q->ip2&&o[10]==q->ip3,"time step, dimensions, data type and levels of the record");
 VP_ASSERT(o[11]==q->ig1&&o[12]==(q->ig2a<<16|q->ig2b<<8|q->ig2c)&&o[13]==q->ig3&&o[14]==q->ig4&&g_g[0]==(char)q->gtyp,"grid descriptors of the record"); VP_ASSERT(o[15]==g_addr&&o[16]==2*g_lng&&o[18]==q->ubc,"place of the record");
 int k=vp_int(); VP_ASSUME(k>=0&&k<12); if(k<l_t) VP_ASSERT(g_t[k]==CH(q->typvar,2,k),"the type, as long as the text given"); if(k<l_n) VP_ASSERT(g_n[k]==CH(q->nomvar,4,k),"the name, as long as the text given"); if(k<l_e) VP_ASSERT(g_e[k]==(k<5?CH(q->etik15,5,k):k<10?CH(q->etik6a,5,k-5):CH(q->etikbc,2,k-10)),"the label, as long as the text given"); VP_ASSERT(g_t[2]==t0&&g_n[4]==n0&&g_e[12]==e0,"nothing past the texts"); VP_REACH("end"); }"""
    run_cbmc(ctx, "c_fstprm", program(ctx, t, "c_fstprm", decls, stubs, main), "c_fstprm", unwind=32)
    main = r"""int main(){ for(int i=0;i<18;i++){ uint32_t x; g_r[i]=x; } stdf_dir_keys*q=(stdf_dir_keys*)g_r; g_h=vp_int(); g_rcp=vp_int(); VP_ASSUME(g_rcp>=0); int a=vp_int(),b=vp_int(),c=vp_int(),a0=a,b0=b,c0=c; int rc=c_fstsui(7,&a,&b,&c); VP_ASSERT(rc==g_h&&g_scan==1,"the handle of the next match"); if(rc>=0) VP_ASSERT(a==q->ni&&b==q->nj&&c==q->nk,"its dimensions"); else VP_ASSERT(a==a0&&b==b0&&c==c0,"nothing found, nothing changed"); VP_REACH("end"); }"""
    run_cbmc(ctx, "c_fstsui", program(ctx, t, "c_fstsui", decls, stubs, main), "c_fstsui", unwind=32)


def listing(ctx):
    """c_fstinl: the matches, in order"""
    t = xdftext(ctx, "fstd98.c")
    fn = "c_fstinl"
    t = replace_body(t, "c_fstinf", 'VP_ASSERT(iun==7&&datev==a_d&&in_etiket==p_e&&ip1==a_1&&ip2==a_2&&ip3==a_3&&in_typvar==p_t&&in_nomvar==p_n&&!g_c,"the search is the one asked"); return vp_match(ni,nj,nk);')
    t = replace_body(t, "c_fstsui", 'VP_ASSERT(iun==7,"the same file"); return vp_match(ni,nj,nk);')
    s, b, e = find_func(t, fn)
    body = sub_idx(t[b:e + 1], r"(?<![\w>.])(liste)\s*\[", lambda m, x: f"(*vp_ls({m.group(1)},{x}))")
    t = t[:b] + body + t[e + 1:]
    t = cut_loops(t, fn, [Loop(["nfound>=0", "g_c>=0", "g_c<=g_T", "nfound<nmax||nmax<=0", "handle<0?nfound==g_c&&g_c==g_T:nfound==g_c-1", "handle<0||g_c-1!=g_j||handle==g_hj", "g_j>=nfound||g_lj==g_hj"], sel=r"vp_ls", mem={"*": "*ni=vp_int(); *nj=vp_int(); *nk=vp_int(); g_lj=vp_int();"}, extra="g_c=vp_int(); handle=vp_int();", keep=("nmax", "iun", "liste"), name="matches"),
                          Loop(["nfound>=0", "g_c<=g_T", "g_c>=g_c0", "g_c-nfound==g_e"], sel=r"c_fstsui", pre="g_c0=g_c; g_e=g_c-nfound;", mem={"*": "*ni=vp_int(); *nj=vp_int(); *nk=vp_int();"}, extra="g_c=vp_int(); handle=vp_int();", keep=("nmax", "iun", "liste", "infon"), name="rest")])
    decls = r"""
static int a_d,a_1,a_2,a_3,g_c,g_T,g_j,g_hj,g_lj,g_e,g_c0; static char p_e[2],p_t[2],p_n[2]; static int g_list[4],g_lx;
static int vp_match(int*ni,int*nj,int*nk){ if(g_c<g_T){ int h=vp_int(); VP_ASSUME(h>=0); if(g_c==g_j) h=g_hj; g_c++; *ni=vp_int(); *nj=vp_int(); *nk=vp_int(); return h; } int h=vp_int(); VP_ASSUME(h<0); return h; }
static int *vp_ls(int*l,long i){ VP_ASSERT(l==g_list&&i>=0&&i<g_nmax,"inside the list given"); if(i==g_j) return &g_lj; return &g_lx; }
""".replace("static int a_d", "static int g_nmax,a_d")
    main = r"""int main(){ a_d=vp_int(); a_1=vp_int(); a_2=vp_int(); a_3=vp_int(); g_T=vp_int(); VP_ASSUME(g_T>=0); g_j=vp_int(); VP_ASSUME(g_j>=0); g_hj=vp_int(); VP_ASSUME(g_hj>=0); g_nmax=vp_int(); VP_ASSUME(g_nmax>=1); int ni,nj,nk,nf=-1; int rc=c_fstinl(7,&ni,&nj,&nk,a_d,p_e,a_1,a_2,a_3,p_t,p_n,g_list,&nf,g_nmax);
 VP_ASSERT(nf==(g_T<g_nmax?g_T:g_nmax),"as many matches are listed as fit"); VP_ASSERT(rc==(g_T>g_nmax?-g_T:0),"a list too short is reported with the number of matches"); if(g_j<nf) VP_ASSERT(g_lj==g_hj,"the list is the sequence of the matches, in order"); VP_REACH("end"); }"""
    run_cbmc(ctx, fn, program(ctx, t, fn, decls, "", main), fn, unwind=4)
