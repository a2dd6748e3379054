"""Every data type of a standard file: the form in which c_fstecr stores a field is the one in which c_fstluk reads it."""
from specs.X01 import *
from specs import fst, xdf

B = dict(unwind=40, solver="cadical", timeout=260)

LAY = r'''
enum { K_NONE, K_FLOAT, K_INT, K_SHORT, K_CHAR, K_IEEE, K_FPACK, K_N8, K_N32, K_NCPY, K_Z32 };
/* storage form of a field: packer, place of header and tokens (words after the keys), tokens, width, bit offset, stride, direction; integer compression of the tokens; words copied as they are */
typedef struct { int k,dbl,hp,pp,n,n2,nb,off,st,op; } vp_lay; typedef struct { int on,pp,ni,nj,nk,nb,sw; } vp_zip;
static vp_lay L,E; static vp_zip Z,EZ; static int g_npk,g_sw=1,g_comp,g_zl,g_up; static long g_n; static const void *g_from; static uint32_t g_field[4]; static int z_ni,z_nj,z_nk; static int g_misson,g_encd; static uint32_t g_fc[4],g_w0[18],g_pay0; static long g_fcn;
static uint32_t g_w[18],g_pay,g_src,g_x1,g_x2,g_pd[24]; static int g_j,g_kl; static buffer_interface g_bh; static long g_balloc=-1;
static uint32_t g_first; static int g_img;
static uint32_t *vp_bw(int i){ VP_ASSERT(g_balloc>=0,"the buffer exists"); if(i>=0&&i<18) return &g_w[i]; VP_ASSUME(i>=0); VP_ASSERT(4l*(10+(long)i)<=g_balloc,"inside the buffer"); int p=i-g_kl; if(p==g_j) return &g_pay; if(p>=0&&p<24) return &g_pd[p]; uint32_t x; g_x1=x; return &g_x1; }
static uint32_t *vp_dw(int p){ VP_ASSERT(p>=0&&4l*(10+(long)p)+8<=g_balloc,"inside the buffer"); if(p==g_j) return &g_pay; if(p>=0&&p<24) return &g_pd[p]; uint32_t x; g_x1=x; return &g_x1; }
static uint32_t *vp_fw(uint32_t*p,long i){ if(p==(g_misson?g_fc:g_field)){ if(i==g_j) return &g_src; if(i==0) return &g_first; } uint32_t x; g_x2=x; return &g_x2; }
static int g_e,g_wel,g_fw[4],g_wide; static short g_fsh,g_xs; static signed char g_fby,g_xb; static long g_wn; static void *vp_allocw(long n){ VP_ASSERT(n>=4*g_n,"the copy of the elements fits"); return g_fw; }
static int *vp_wd(void*p,long i){ if(p==g_fw&&i==g_e) return &g_wel; int x; static int y; y=x; return &y; } static short *vp_fs(void*p,long i){ if(p==(g_misson?g_fc:g_field)&&i==g_e) return &g_fsh; short x; g_xs=x; return &g_xs; } static signed char *vp_fb(void*p,long i){ if(p==(g_misson?g_fc:g_field)&&i==g_e) return &g_fby; signed char x; g_xb=x; return &g_xb; }
static int vp_widened(void){ return xdf_short?g_wel==g_fsh:g_wel==g_fby; } static int vp_narrowed(void){ return xdf_short?g_fsh==(short)g_wel:g_fby==(signed char)g_wel; }
static int vp_pos(const void*q){ const uint32_t*p=q; return p==&g_pay?g_j:__CPROVER_same_object(p,g_pd)?(int)(p-g_pd):-1; }
static void *vp_allocb(long n){ g_balloc=n; return &g_bh; } static void *vp_allocf(long n){ g_fcn=n; return g_fc; }
static void *vp_zero(void*p,int c,long n){ if(p==(void*)&g_bh) for(int i=0;i<18;i++) g_w[i]=0; return p; }
static int vp_n(void){ return (int)g_n; } static int vp_reals(int d){ d&=15; return d==1||d==5||d==6; }
static void vp_set(int k,int dbl,const void*from,const void*h,const void*t,int n,int nb,int off,int st,int op){ vp_lay z={0}; L=z; if(!g_up) Z.on=0; g_npk++; L.k=k; L.dbl=dbl; L.hp=h?vp_pos(h):0; L.pp=vp_pos(t); L.n=n; L.nb=nb; L.off=off; L.st=st; L.op=op; g_from=from; g_wide=k==K_INT&&from==(void*)g_fw; }
static uint32_t *vp_w0(void){ return g_j==0?&g_pay:&g_pd[0]; }
static int vp_eq(void){ return L.k==E.k&&L.dbl==E.dbl&&L.hp==E.hp&&L.pp==E.pp&&L.n==E.n&&L.n2==E.n2&&L.nb==E.nb&&L.off==E.off&&L.st==E.st&&L.op==E.op; }
static int vp_zeq(void){ return Z.on==EZ.on&&(!Z.on||(Z.pp==EZ.pp&&Z.ni==EZ.ni&&Z.nj==EZ.nj&&Z.nk==EZ.nk&&Z.nb==EZ.nb&&Z.sw==EZ.sw)); }
static void vp_e(int k,int dbl,int hp,int pp,int n,int nb,int off,int st,int op){ vp_lay z={0}; E=z; E.k=k; E.dbl=dbl; E.hp=hp; E.pp=pp; E.n=n; E.nb=nb; E.off=off; E.st=st; E.op=op; }
static void vp_ez(int pp,int nb,int sw){ EZ.on=1; EZ.pp=pp; EZ.ni=z_ni; EZ.nj=z_nj; EZ.nk=z_nk; EZ.nb=nb; EZ.sw=sw; }
/* the form of a record of type D (without the missing-value flag) and width W; w: 1 written, 0 read; sh,by,db: declared length of the elements. Returns words copied as they are, or -1 */
static long vp_form(int D,int W,int w,int sh,int by,int db){ int n=vp_n(); vp_zip z={0}; EZ=z;
 switch(D){ case 0: vp_e(0,0,0,0,0,0,0,0,0); return ((long)n*W+31)/32;
  case 1: vp_e(K_FLOAT,db,0,3,n,W,24,xdf_stride,w?1:2); return -1;
  case 129: vp_e(K_FLOAT,db,1,5,n,W+64*(W>16?W:16),0,xdf_stride,w?1:2); vp_ez(5,W,1); return -1;
  case 2: if(sh) vp_e(K_SHORT,0,0,0,n,W,0,xdf_stride,w?5:6); else if(by) vp_e(K_CHAR,0,0,0,n,W,0,xdf_stride,w?9:10); else vp_e(K_INT,0,0,0,n,W,0,xdf_stride,w?1:2); return -1;
  case 130: vp_e(sh?K_NCPY:by?K_N8:K_N32,0,0,1,sh?2*n:n,sh||by?0:W,0,0,0); vp_ez(1,W,0); return -1;
  case 3: vp_e(K_INT,0,0,0,(n+3)/4,32,0,xdf_stride,w?1:2); return -1;
  case 4: if((sh||by)&&!g_wide) vp_e(sh?K_SHORT:K_CHAR,0,0,0,n,W,0,xdf_stride,sh?(w?7:8):(w?11:12)); else vp_e(K_INT,0,0,0,n,W,0,xdf_stride,w?3:4); return -1;//K_SHORT,0,0,0,n,W,0,xdf_stride,w?7:8); else if(by) vp_e(K_CHAR,0,0,0,n,W,0,xdf_stride,w?11:12); else vp_e(K_INT,0,0,0,n,W,0,xdf_stride,w?3:4); return -1;
  case 5: case 8: vp_e(K_IEEE,0,0,0,D==8?2*n:n,-W,0,0,w?1:2); return -1;
  case 133: vp_e(K_Z32,0,0,1,0,W,0,0,0); return -1;
  case 6: vp_e(K_FPACK,0,0,3,n,w?W:0,0,0,0); return -1;
  case 134: vp_e(K_FPACK,0,1,4,n,w?W:0,0,0,0); vp_ez(4,W,1); return -1;
  case 7: vp_e(K_CHAR,0,0,0,n,8,0,xdf_stride,w?9:10); return -1; }
 vp_e(-1,0,0,0,0,0,0,0,0); return -1; }
/* bits of the record that the form occupies; compressed records tell their own length */
static long vp_bits(int D,int W){ int n=vp_n(); switch(D){ case 0: case 2: case 4: case 5: return n*W; case 1: return 120+n*W; case 8: return 2*n*W; case 3: return 8*n; case 7: return n*(W<8?8:W); case 6: return 8*(12+4*((n+1)/2)); } return 0; }
/* words of a record that is copied as it is */
static int vp_words(int D,int W,uint32_t first){ int n=vp_n(); if(D>128) return first; int b=n*W; if(D==1) b+=120; if(D==3) b=8*n; if(D==8) b*=2; if(D==6) b=8*(12+4*((n+1)/2)); return (b+31)/32; }
/* words the last packer or compressor touched, from the start of the data */
static void vp_room(int D){ int n=vp_n(); long w=L.pp; switch(L.k){ case K_FLOAT: w+=(L.off+n*(L.nb>64?L.nb>>6:L.nb)+31)/32; break; case K_INT: case K_SHORT: case K_CHAR: w+=(L.n*L.nb+31)/32; break; case K_NCPY: case K_N8: case K_N32: w+=(n+1)/2; break; case K_FPACK: w+=(n+1)/2; break; case K_IEEE: w+=(L.n*-L.nb+31)/32; break; default: return; } VP_ASSERT(4*(10+g_kl+w)<=g_balloc,"what is packed fits the buffer"); }
static void vp_inplace(int on,const void*t,int ni,int nj,int nk,int nb,int sw){ Z.on=on; Z.pp=vp_pos(t); Z.ni=ni; Z.nj=nj; Z.nk=nk; Z.nb=nb; Z.sw=sw; }
'''

# contracts of the packers (P01, P02, P03, M01, E01 state and prove them; the compressors' by the native oracle)
STUB = r'''
int compact_integer(void*a,void*h,void*p,int n,int nb,int off,int st,int op){ VP_ASSERT(!h&&nb>=1&&nb<=32,"an integer packer call within its contract"); vp_set(K_INT,0,a,0,p,n,nb,off,st,op); vp_chk(); return vp_int(); }
int compact_short(void*a,void*h,void*p,int n,int nb,int off,int st,int op){ VP_ASSERT(!h&&nb>=1&&(nb<=16||op>6),"a 16-bit packer call within its contract"); vp_set(K_SHORT,0,a,0,p,n,nb,off,st,op); vp_chk(); return vp_int(); }
int compact_char(void*a,void*h,void*p,int n,int nb,int off,int st,int op){ VP_ASSERT(!h&&nb>=1&&(nb<=8||op>10),"an 8-bit packer call within its contract"); vp_set(K_CHAR,0,a,0,p,n,nb,off,st,op); vp_chk(); return vp_int(); }
void *compact_double(void*a,void*h,void*p,int n,int nb,int off,int st,int op,int m,void*t){ return 0; } void *compact_float(void*a,void*h,void*p,int n,int nb,int off,int st,int op,int m,void*t){ return 0; }
static void vp_packfunc(void*pf,void*a,void*h,void*p,int n,int nb,int off,int st,int op,int m,void*t){ VP_ASSERT(m==0,"missing values are handled outside the packer"); vp_set(K_FLOAT,pf==(void*)&compact_double,a,h,p,n,nb,off,st,op); vp_chk(); }
int armn_compress(unsigned char*p,int ni,int nj,int nk,int nb,int op){ VP_ASSERT(op==(g_up?2:1),"compressed when written, expanded when read"); if(g_up){ VP_ASSERT(!Z.on&&L.k==K_NONE,"expanded once, before it is unpacked"); vp_inplace(1,p,ni,nj,nk,nb,g_sw); return (int)(2*g_n); }
  VP_ASSERT((L.k==K_FLOAT||L.k==K_NCPY||L.k==K_N8||L.k==K_N32||L.k==K_FPACK)&&L.pp==vp_pos(p),"the tokens just packed are compressed"); int r=vp_int(); VP_ASSUME(r<0||(r%4==1&&r<1+2*g_n)); if(r<0){ vp_lay z={0}; L=z; g_zl=-1; return r; } vp_inplace(1,p,ni,nj,nk,nb,g_sw); g_zl=(r-1)/4; return r; }
void c_armn_compress_setswap(int s){ g_sw=s; }
int c_armn_compress32(unsigned char*p,float*a,int ni,int nj,int nk,int nb){ vp_set(K_Z32,0,a,0,p,0,nb,0,0,0); VP_ASSERT(ni==z_ni&&nj==z_nj&&nk==z_nk,"the dimensions of the field"); int r=vp_int(); VP_ASSUME(r<0||8*(long)r<=g_n*nb+64); if(r<0){ vp_lay z={0}; L=z; return r; } g_zl=(r+3)/4; return r; }
int c_armn_uncompress32(float*a,unsigned char*p,int ni,int nj,int nk,int nb){ vp_set(K_Z32,0,a,0,p,0,nb,0,0,0); VP_ASSERT(ni==z_ni&&nj==z_nj&&nk==z_nk,"the dimensions of the field"); return vp_int(); }
void ieeepak_(void*a,void*p,int*ni,int*nj,int*nb,int*z,int*op){ VP_ASSERT(*z==0,"no gap"); int n=g_up?*ni**nj:(*ni==z_ni&&*nj==vp_njnk())?vp_n():(*ni==2*z_ni&&*nj==vp_njnk())?2*vp_n():-1; vp_set(K_IEEE,0,a,0,p,n,*nb,0,0,*op); vp_chk(); }
int32_t c_float_packer(float*a,int32_t nb,int32_t*h,int32_t*p,int32_t n){ VP_ASSERT(nb>=1&&nb<=16,"a float packer call within its contract"); vp_set(K_FPACK,0,a,h,p,n,nb,0,0,0); vp_chk(); return 0; }
int32_t c_float_unpacker(float*a,int32_t*h,int32_t*p,int32_t n,int32_t*nb){ vp_set(K_FPACK,0,a,h,p,n,0,0,0,0); return 0; }
void c_float_packer_params(int32_t*a,int32_t*b,int32_t*c,int32_t*d,int32_t n){ VP_ASSERT(n==vp_n(),"the number of elements"); *a=12; *b=4*((n+1)/2); *c=*d=0; }
int EncodeMissingValue(void*d,const void*s,int n,int dt,int nb,int by,int sh,int db){ VP_ASSERT(s==g_field&&d==g_fc&&n==vp_n()&&by==xdf_byte&&sh==xdf_short&&db==xdf_double,"the whole field is examined"); long el=by?1:sh?2:(db||((dt&15)==5&&nb==64))?8:4; VP_ASSERT(g_fcn>=el*g_n,"the encoded copy fits"); g_encd=dt&15; g_misson=(dt&15)!=0&&(dt&15)!=3&&(dt&15)!=7&&(dt&15)!=8&&(vp_int()&1); return g_misson; }
'''


def abstract_n(body):
    """the number of elements is one opaque number, whatever the way of writing the product"""
    body = re.sub(r"\(\s*double\s*\)\s*ni\s*\*\s*nj\s*\*\s*nk\b", "((long)g_n)", body)   # exact in both; the quotient by 32 is rounded down, so that up to 31 bits more are admitted than the code does
    body = re.sub(r"\bni\s*\*\s*nj\s*\*\s*nk\b", "vp_n()", body)
    body = re.sub(r"\(\s*\*\s*ni\s*\)\s*\*\s*\(\s*\*\s*nj\s*\)\s*\*\s*\(\s*\*\s*nk\s*\)", "vp_n()", body)
    body = re.sub(r"\*\s*ni\s*\*\s*\*\s*nj\s*\*\s*\*\s*nk\b", "vp_n()", body)
    body = re.sub(r"\b(\w+)\s*\.\s*ni\s*\*\s*\1\s*\.\s*nj\s*\*\s*\1\s*\.\s*nk\b", "vp_n()", body)
    return re.sub(r"\bnj\s*\*\s*nk\b", "vp_njnk()", body)


CONV = {"memcpy_8_16": ("K_N8", 0), "memcpy_16_8": ("K_N8", 1), "memcpy_32_16": ("K_N32", 0), "memcpy_16_32": ("K_N32", 1)}


def conv(t):
    for f, (k, up) in CONV.items():
        s, b, e = find_func(t, f)
        ps = [p.strip().split()[-1].lstrip("*") for p in t[t.index("(", s) + 1:match(t, t.index("(", s))].split(",")]
        nb = ps[2] if len(ps) == 4 else "0"
        d, a = ps[0], ps[1]
        t = replace_body(t, f, f"vp_set({k},0,{d if up else a},0,{a if up else d},{ps[-1]},{nb},0,0,0); vp_chk();")
    return t


MISC = r'''
#define IN(x,a,b) ((x)>=(a)&&(x)<=(b))
int sprintf(char*s,const char*f,...){ return 0; } void incdatr_(int32_t*r,int32_t*d,double*h){ *r=vp_int(); } static int g_rewr; void *xdf_set_file_filter(int iun,void*f){ return 0; }
int fnom_index(const int iun){ return 0; }
'''


def write_job(ctx):
    t = fst.writer(ctx, True)
    fn = "c_fstecr"
    t = replace_body(conv(t), "c_fstinf", "return vp_int();")
    s, b, e = find_func(t, fn)
    t = t[:b] + abstract_n(t[b:e + 1]).replace("vp_cpy(", "vp_ncpy(") + t[e + 1:]
    decls = LAY.replace("static int vp_n(void)", "static int g_njnk; static int vp_njnk(void){ return g_njnk; } static void vp_chk(void); static void vp_ncpy(void*d,const void*s,long n); static int vp_n(void)") + "static void vp_packfunc(void*pf,void*a,void*h,void*p,int n,int nb,int off,int st,int op,int m,void*t);\n static int a_dt,a_npak,a_sh,a_by,a_db,g_puts,a_img; static file_table_entry g_fe; static general_file_info g_gi;\n"
    stubs = STUB + MISC + r'''
static void vp_chk(void){ vp_room(0); }
static void vp_ncpy(void*d,const void*s,long n){ vp_set(K_NCPY,0,s,0,d,(int)n,0,0,0,0); VP_ASSERT(n==2*g_n,"the whole field is copied"); vp_room(0); }
int c_xdfput(int iun,int h,buffer_interface_ptr b){ stdf_dir_keys*q=(stdf_dir_keys*)g_w; g_puts++; int D=q->datyp&0xBF,W=q->nbits,ms=(q->datyp&64)!=0;
 if(g_img){ VP_ASSERT(q->datyp==a_dt&&W==-a_npak,"the type and width of the record copied"); VP_ASSERT(L.k==K_NONE&&!g_misson,"its data are not coded again"); uint32_t f=g_j==0?g_src:g_first; int cw=vp_words(D,W,f); VP_ASSERT(g_j>=cw||g_pay==g_src,"every word is copied"); VP_ASSERT((long)b->nbits/32-g_kl>=(D>128?cw-1:cw)&&4l*(10+b->nbits/32)<=g_balloc,"the record holds them"); return 0; }
 long raw=vp_form(D,W,1,a_sh,a_by,a_db||a_dt==801); VP_ASSERT(E.k!=-1,"a type the reader knows"); VP_ASSERT(vp_eq(),"the field is stored in the form its type and width tell"); VP_ASSERT(vp_zeq(),"compressed exactly when its type tells"); VP_ASSERT(g_sw==1,"the compressor is left as it was found");
 if(D==3||D==7) VP_ASSERT(D==3?W==8:W>=8,"characters have eight bits"); if(raw>=0) VP_ASSERT(g_j>=raw||g_pay==g_src,"the words of the field are stored as they are"); if(g_wide) VP_ASSERT(D==4&&(a_sh||a_by)&&(g_e>=g_n||(a_sh?g_wel==g_fsh:g_wel==g_fby)),"the elements given are stored"); else if(L.k!=K_NONE) VP_ASSERT(g_from==(ms?(void*)g_fc:(void*)g_field),"the field given is stored, encoded when it has missing values"); VP_ASSERT(ms==g_misson,"missing values are told in the type"); if(ms) VP_ASSERT(vp_reals(D)==vp_reals(g_encd)&&(D&15)!=0&&(vp_reals(D)||(D&15)==g_encd),"encoded as the elements the type tells");
 long words=(long)b->nbits/32-g_kl; VP_ASSERT(b->nbits%64==0,"whole 64-bit words"); VP_ASSERT(4l*(10+b->nbits/32)<=g_balloc&&b->nbits/32>=g_kl,"the record is inside the buffer");
 if(D>128){ VP_ASSERT(*vp_w0()==(uint32_t)words,"a compressed record carries its length"); VP_ASSERT(words>=(D==133?1:E.pp)+(long)g_zl,"the record holds the compressed tokens"); } else VP_ASSERT(32*words>=vp_bits(D,W),"the record holds the field"); return 0; }
'''
    if not has_func(t, "file_index"):
        stubs += "int file_index(const int iun){ return 0; }\n"
    main = r'''int main(){ FTN_Bitmot=8*sizeof(int32_t); g_j=vp_int(); VP_ASSUME(g_j>=0); g_e=vp_int(); VP_ASSUME(g_e>=0); g_fsh=vp_short(); g_fby=(signed char)vp_uchar(); g_wel=vp_int(); g_fe.cur_info=&g_gi; g_gi.attr.std=1; g_fe.primary_len=9; g_fe.info_len=1; g_kl=20; file_table[0]=&g_fe; g_fe.xdf_seq=vp_int()&1; nb_remap=0; g_src=vp_uint(); g_first=vp_uint(); { uint32_t a; g_pay=a; } SETIMG image_mode_copy=g_img;
 a_sh=xdf_short=vp_int()&1; a_by=xdf_byte=!a_sh&&(vp_int()&1); a_db=xdf_double=!a_sh&&!a_by&&(vp_int()&1); xdf_stride=vp_int(); a_dt=vp_int(); a_npak=vp_int(); z_ni=vp_int(); z_nj=vp_int(); z_nk=vp_int(); g_njnk=vp_int(); g_n=vp_long(); VP_ASSUME(g_n>=1&&g_n<(1l<<31)); VP_ASSUME(z_ni>=1&&z_ni<(1<<24)&&z_nj>=1&&z_nk>=1&&z_nk<=0xfffff&&g_njnk>=1);
 VP_ASSUME(a_npak>=-64&&a_npak<=64); CASE
 { int base=a_dt==801?1:a_dt&15; int wd=a_npak==0?32:a_npak<0?-a_npak:32/a_npak; if(base==1||base==2||base==4||base==6||(a_dt&0xBF)==133) VP_ASSUME(wd<=32); if((a_dt&0xBF)==133) VP_ASSUME(wd>=16); } VP_ASSUME(g_n<(1<<26));
 int rc=c_fstecr(g_field,0,a_npak,7,0,0,0,z_ni,z_nj,z_nk,0,0,0,"P","TT","A","X",0,0,0,0,a_dt,0); VP_ASSERT(g_puts<=1,"one record"); VP_REACH("end"); }'''
    # one case per data type (the types of the table of c_fstecr, with and without the flags 64 and 128, and any other)
    cases = [(f"type {d}", f"VP_ASSUME((a_dt&~0xC0)=={d});") for d in (3, 4, 6, 7)] + [(f"type {d}{n}", f"VP_ASSUME((a_dt&~0xC0)=={d}&&{c});") for d in (0, 1, 2) for n, c in ((", compressed", "(a_dt&128)"), ("", "!(a_dt&192)"), (", missing values", "(a_dt&192)==64"))] + [(f"type {d}, {w}", f"VP_ASSUME((a_dt&~0xC0)=={d}&&{c});") for d in (5, 8) for w, c in (("32 bits", "(a_npak==-32||a_npak==0||a_npak==1)"), ("64 bits", "a_npak==-64"), ("16 bits", "a_npak==-16"), ("24 bits", "a_npak==-24"), ("other widths", "a_npak!=-32&&a_npak!=-64&&a_npak!=0&&a_npak!=1"))] + [("type 801", "VP_ASSUME(a_dt==801);"), ("other types", "VP_ASSUME(((a_dt&~0xC0)>8&&a_dt<256)&&(a_dt&15)!=8&&a_npak!=0&&a_npak!=1);"), ("other types, no compaction", "VP_ASSUME(((a_dt&~0xC0)>8&&a_dt<256)&&(a_dt&15)!=8&&(a_npak==0||a_npak==1));"), ("other types like 8", "VP_ASSUME(((a_dt&~0xC0)>8&&a_dt<256)&&(a_dt&15)==8);")]
    if ctx.tier == "quick":
        cases = [x for x in cases if not re.search("other widths|like 8", x[0])]
    cases = [(n, "g_img=0;", c) for n, c in cases] + [(f"image of a record, {n}", "g_img=1;", "{ int D=a_dt&0xBF; VP_ASSUME("+c+");  VP_ASSUME(a_dt>=0&&a_dt<256&&((D>=0&&D<=8)||D==129||D==130||D==133||D==134)&&(D!=8||a_dt==8)&&a_npak<-1&&(D<=128||a_npak>=-16||D==133)&&(D!=6||a_npak>=-16)&&(D!=3||a_npak==-8)&&(D!=7||a_npak<=-8)); VP_ASSUME(D<=128||g_j!=0&&g_first<=g_n/2||g_j==0&&g_src<=g_n/2); }") for n, c in (("raw", "D==0"), ("packed reals", "D==1"), ("integers", "D==2||D==4"), ("IEEE", "D==5"), ("characters", "D==3||D==7"), ("float-packed", "D==6"), ("complex", "D==8"), ("compressed", "D>128"))]
    ctx.parallel([(n, lambda n=n, i=i, c=c: run_cbmc(ctx, f"c_fstecr {n}", fst.program(ctx, t, fn, decls, stubs, main.replace("CASE", c).replace("SETIMG", i)), fn, **B)) for n, i, c in cases])


def reader(ctx):
    def go():
        t = xdftext(ctx, "fstd98.c")
        for f in ("crack_std_parms", "print_std_parms"):
            t = replace_body(t, f, "")
        t = conv(t)
        fn = "c_fstluk"
        s, b, e = find_func(t, fn)
        body = abstract_n(fst.widening(t[b:e + 1]))
        m = re.search(r"\bchar\s+(\w+)\s*\[\s*(\w+)\s*\]\s*;", body)
        if not m:
            raise ToolError("c_fstluk: the work buffer is not found")
        wf = m.group(1)
        body = body[:m.start()] + f"long __vp_room={m.group(2)}; g_balloc=__vp_room; static char {wf}[16];" + body[m.end():]
        body = re.sub(r"\b(?:bzero|memset)\s*\(\s*%s\b[^;]*;" % wf, ";", body)
        body = re.sub(r"\(\s*buffer_interface_ptr\s*\)\s*(%s\b|\(\s*%s\s*\+\s*\d+\s*\))" % (wf, wf), "&g_bh", body)
        body = re.sub(r"\bmemcpy\s*\(", "vp_ncpy(", body)
        body = sub_idx2(body, r"\bbuf\s*->\s*data\s*\[", lambda x: f"(*vp_dw({x}))")
        body = re.sub(r"\bbuf\s*->\s*data\s*\+\s*((?:\w+\s*\+\s*)*\w+)", r"vp_dw(\1)", body)
        body = re.sub(r"\bbuf\s*->\s*data\b", "vp_dw(0)", body)
        body = fst.sub_idx(body, r"(?<![\w>.])(field)\s*\[", lambda m, x: f"(*vp_fw({m.group(1)},{x}))")
        body = re.sub(r"\bpackfunc\s*\(", "vp_packfunc((void*)packfunc,", body)
        t = t[:b] + body + t[e + 1:]
        t = cut_loops(t, fn, [Loop(["i>=0", "i<=g_j||g_src==g_pay", "i>g_j||g_src==g_src0", "L.k==K_NONE"], sel=r"vp_fw\(.*vp_dw|vp_dw.*vp_fw", all=True, pre="g_src0=g_src;", mem={"*": "{uint32_t z; g_src=z;}"}, keep=("lngw",), name="copy"),
                              Loop(["i>=0", "i<=g_e||vp_narrowed()"], sel=r"vp_wd\s*\(", all=True, optional=True, mem={"*": "g_fsh=vp_short(); g_fby=(signed char)vp_uchar();"}, keep=("nelm",), name="elements"),
                              Loop(["i>=0"], sel=r"temp32", optional=True, mem={"*": ""}, ptr={"src": "", "dest": ""}, keep=("nelm",), name="halves"),
                              Loop(["i>=0"], sel=r"ptr_double", optional=True, mem={"*": ""}, ptr={"ptr_real": "", "ptr_double": ""}, keep=("nelm",), name="narrow")])
        return t
    return ctx._once("fstreader", go)


def sub_idx2(body, pat, fn):
    return fst.sub_idx(body, pat, lambda m, x: fn(x))


def read_job(ctx):
    t = reader(ctx)
    fn = "c_fstluk"
    decls = LAY.replace("static int vp_n(void)", "static uint32_t g_src0; static int vp_njnk(void){ return vp_int(); } static void vp_chk(void); static void vp_ncpy(void*d,const void*s,long n); static int vp_n(void)") + "static void vp_packfunc(void*pf,void*a,void*h,void*p,int n,int nb,int off,int st,int op,int m,void*t);\n static int a_sh,a_by,a_db,g_H,g_dec,g_D,g_W,g_lng,g_got,g_after; static uint32_t g_k[18];\n"
    stubs = STUB.replace("*ni**nj", "((VP_ASSERT_(*nj==1)),*ni)").replace("VP_ASSERT_(*nj==1)", "*nj==1?0:(__CPROVER_assert(0,\"the elements of the field\"),0)") + r'''
int sprintf(char*s,const char*f,...){ return 0; } static void vp_chk(void){ VP_ASSERT(L.k==K_NONE||!g_after,"the field is filled once"); g_after=1; }
static void vp_ncpy(void*d,const void*s,long n){ vp_set(K_NCPY,0,d,0,s,(int)n,0,0,0,0); }
int c_xdfprm(int h,int*a,int*l,int*i,uint32_t*k,int n){ VP_ASSERT(h==g_H&&n==16,"the descriptors of the record"); for(int j=0;j<16;j++) k[j]=g_k[j+2]; *a=vp_int(); *l=g_lng; *i=vp_int(); return 0; }
int c_xdfget2(int h,buffer_interface_ptr b,int*x){ VP_ASSERT(h==g_H&&b==&g_bh,"the data of this record"); VP_ASSERT((int)b->nwords<0,"the data only"); long w=2l*g_lng; x[0]=x[1]=0; if(vp_form(g_D,g_W,0,a_sh,a_by,a_db)==-1&&E.k==-1) return 0; VP_ASSERT(-(long)(int)b->nwords>=w,"room for the whole record is declared"); VP_ASSERT(g_balloc>=8+4*(10+w),"the record fits the buffer"); g_got++; return 0; }
void DecodeMissingValue(void*f,int n,int dt,int by,int sh,int db){ g_dec++; VP_ASSERT(f==(void*)g_field&&n==vp_n()&&(dt&15)==(g_D&15)&&by==a_by&&sh==a_sh&&(db!=0)==(a_db||((g_D&15)==5&&g_W==64)),"the missing values of the whole field are restored, as elements of its type"); VP_ASSERT(g_got==1,"after the field is read"); }
'''
    # elements the decoder produces: restored order of 16-bit conversions
    main = r'''int main(){ g_j=vp_int(); VP_ASSUME(g_j>=0); g_e=vp_int(); VP_ASSUME(g_e>=0); g_fsh=vp_short(); g_fby=(signed char)vp_uchar(); g_wel=vp_int(); g_up=1; for(int i=0;i<18;i++){ uint32_t x; g_k[i]=x; } stdf_dir_keys*q=(stdf_dir_keys*)g_k; z_ni=q->ni; z_nj=q->nj; z_nk=q->nk; VP_ASSUME(z_ni>=1&&z_nj>=1&&z_nk>=1); g_D=q->datyp&0xBF; g_W=q->nbits; int ms=(q->datyp&64)!=0; VP_ASSUME(g_W>=1&&g_W<=64); if(g_D==3) VP_ASSUME(g_W==8); if(g_D==7) VP_ASSUME(g_W>=8); SETIMG image_mode_copy=g_img; downgrade_32=0;
 a_sh=xdf_short=vp_int()&1; a_by=xdf_byte=!a_sh&&(vp_int()&1); a_db=xdf_double=!a_sh&&!a_by&&(vp_int()&1); xdf_stride=vp_int(); g_n=vp_long(); VP_ASSUME(g_n>=1&&g_n<(1l<<26)); VP_ASSUME(g_n*g_W<=32l*MAXREC); g_H=vp_int(); VP_ASSUME(g_H>=0); CASE
 /* what was written: the type, its width and the declared element length agree */
 if(g_D>128&&g_D!=133) VP_ASSUME(g_W<=16); if(g_D==6) VP_ASSUME(g_W<=16); if(g_D==133) VP_ASSUME(g_W<=32); if(g_D==2&&a_sh) VP_ASSUME(g_W<=16); if((g_D==2||g_D==130)&&a_by) VP_ASSUME(g_W<=8); if(g_D!=5&&g_D!=8) VP_ASSUME(g_W<=32);
 /* the record is at least as long as its form and may be longer (sequential files) */
 { uint32_t a,b,c,d; g_pay=a; g_src=b; g_x1=c; g_x2=d; for(int i=0;i<24;i++){ uint32_t x; g_pd[i]=x; } }
 g_lng=vp_int(); VP_ASSUME(g_lng>=1&&64l*g_lng>=vp_bits(g_D,g_W)&&g_lng<(1<<26));
 if(g_img) VP_ASSUME(g_D<=128||*vp_w0()+1l+g_kl<=2l*g_lng); int ni=-1,nj=-1,nk=-1; int rc=c_fstluk(g_field,g_H,&ni,&nj,&nk);
 long raw=vp_form(g_D,g_W,0,a_sh,a_by,a_db); if(g_img){ VP_ASSERT(rc==g_H&&g_got==1&&L.k==K_NONE&&!Z.on&&!g_dec,"the record is read, its data are not decoded"); VP_ASSERT(g_j>=vp_words(g_D,g_W,*vp_w0())||g_src==g_pay,"every word is copied"); } else if(E.k==-1) VP_ASSERT(rc<0,"an unknown type is refused"); else { VP_ASSERT(rc==g_H&&g_got==1,"the record is read"); VP_ASSERT(ni==z_ni&&nj==z_nj&&nk==z_nk,"its dimensions are returned"); 
  VP_ASSERT(vp_eq(),"the field is read in the form its type and width tell"); VP_ASSERT(vp_zeq(),"expanded exactly when its type tells"); VP_ASSERT(g_sw==1,"the compressor is left as it was found"); if(g_wide) VP_ASSERT(g_D==4&&(a_sh||a_by)&&(g_e>=g_n||(a_sh?g_fsh==(short)g_wel:g_fby==(signed char)g_wel)),"the elements read are returned"); else if(L.k!=K_NONE) VP_ASSERT(g_from==(void*)g_field,"into the field given"); if(raw>=0&&!g_img) VP_ASSERT(g_j>=raw||g_src==g_pay,"the words of the record are copied as they are"); VP_ASSERT(g_dec==ms,"missing values are restored exactly when the record has some"); VP_ASSERT(!xdf_short&&!xdf_byte&&!xdf_double,"the declared element length serves one field"); }
 VP_REACH("end"); }'''.replace("MAXREC", const(ctx, "MAX_RECORD_LENGTH"))
    cases = [(f"type {d}", f"VP_ASSUME((g_D&~0x80)=={d});") for d in range(9)] + [("other types", "VP_ASSUME((g_D&~0x80)>8);")]
    cases = [(n, "g_img=0;", c) for n, c in cases] + [("image of a record", "g_img=1;", "VP_ASSUME(g_D<=7&&g_D!=1);"), ("image of packed reals", "g_img=1;", "VP_ASSUME(g_D==1);"), ("image of a compressed record", "g_img=1;", "VP_ASSUME(g_D==129||g_D==130||g_D==133||g_D==134);"), ("image of a complex record", "g_img=1;", "VP_ASSUME(g_D==8&&(g_W==32||g_W==64));")]
    ctx.parallel([(n, lambda n=n, i=i, c=c: run_cbmc(ctx, f"c_fstluk {n}", fst.program(ctx, t, fn, decls, stubs, main.replace("CASE", c).replace("SETIMG", i)), fn, **B)) for n, i, c in cases])


def run(ctx):
    ctx.trusted += TB_C
    ctx.under_contract("c_fstecr (storage form of every data type)", "c_fstluk (reading of every data type)")
    ctx.parallel([("native", lambda: native(ctx, "fstdata", [lambda: fststack(ctx)], lang="f", extra=["-I" + REPO + "/src/fstd98"])), ("w", lambda: write_job(ctx)), ("r", lambda: read_job(ctx))])
    ctx.assume("packers, unpackers and the handling of missing values are inverse of one another (P01, P02, P03, M01, E01 and C01 state and prove their contracts)")
    ctx.assume("armn_compress, c_armn_compress32 and their inverses: lossless, the compressed tokens are shorter than 2 bytes per element (or the field, for type 133), the expanded tokens take 2 bytes per element; exercised by the native oracle only")
    ctx.assume("fields of less than 2^26 elements (beyond, sizes in bits overflow an int); the test of the maximum record size is evaluated in integers, which admits up to 31 bits more")
    ctx.assume("the caller asks for a width the packer has: at most 32 bits for integers and packed reals, at least 16 for type 133; a field is read with the element length it was written with")
    if ctx.tier == "quick":
        ctx.assume("quick tier: types 5 and 8 at their usual widths (32, 64, 16, 24 bits); the thorough tier covers every width")
    return "proof", "every data type, width, element length, dimension, missing-value flag and position of a word; record of any length not shorter than its form"
