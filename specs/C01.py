from specs.common import *

G = r'''
#include <stdint.h>
static unsigned char *g_s,*g_d; static int g_n,g_m,g_k,g_q,g_p0,g_T,g_it; static int g_x,g_x2,g_qv,g_ok;
static inline int up(int c){ return c>='a'&&c<='z'?c-32:c; } static inline int lo(int c){ return c>='A'&&c<='Z'?c+32:c; }
'''
INC = [f"{VERIF}/stubs"]
src = lambda rel: cpp(f"{REPO}/src/{rel}", incs=INC)


def r4(ctx):
    # word text -> string
    t = src("fstd98/r4astrg.c")
    fn = "r4astrg_"
    L = Loop(["i>=g_p0&&(i-g_p0<=g_n||i==g_p0)&&i<=*posfin+1||i==g_p0", "(unsigned char*)strg==g_d+(i-g_p0)", "!(g_k<i-g_p0)||g_d[g_k]==(unsigned char)g_x", "!(g_q>=i-g_p0)||g_d[g_q]==(unsigned char)g_qv", "xor==3"],
             ptr={"strg": "{int x; strg=(char*)g_d+x;}"}, mem={"strg": "__CPROVER_havoc_object(g_d);"}, keep=("xor",), name="copy")
    c = cut_loops(t, fn, [L])
    h = f'''int main(){{ int pd=vp_int(),pf=vp_int(),len=vp_int(); VP_ASSUME(pd>=0&&pf>=-1&&pf<(1<<28)&&pd<(1<<28)&&len>=0&&len<(1<<28)); g_p0=pd; g_n=len; g_m=pf-pd+1; if(g_m<0) g_m=0; if(len<g_m) g_m=len;
  unsigned sz=(pf>pd?pf:pd)+8; sz=sz&~3u; g_s=malloc(sz); g_d=malloc(len+1); g_k=vp_int(); VP_ASSUME(g_k>=0); VP_ASSUME(g_k<g_m||g_m==0&&g_k==0); g_q=vp_int(); VP_ASSUME(g_q>=g_m&&g_q<=len);
  g_x=g_s[(pd+g_k)^3]; g_qv=g_d[g_q]; int pd0=pd,pf0=pf; {fn}((char*)g_d,(char*)g_s,&pd,&pf,len);
  VP_ASSERT(!(g_k<g_m)||g_d[g_k]==g_x,"character k is byte posdeb+k of the words, most significant first"); VP_ASSERT(g_d[g_q]==g_qv,"nothing else of the string is written"); VP_ASSERT(pd==pd0&&pf==pf0,"bounds unchanged"); VP_REACH("end"); }}'''
    run_cbmc(ctx, "r4astrg", PRELUDE + G + c + h, fn)
    t = src("fstd98/strgr4a.c")
    fn = "strgr4a_"
    L = Loop(["i>=g_p0&&(i-g_p0<=g_n||i==g_p0)&&i<=*posfin+1||i==g_p0", "(unsigned char*)strg==g_s+(i-g_p0)", "!((g_q^3)>=g_p0&&(g_q^3)<i)||g_d[g_q]==(unsigned char)g_x", "((g_q^3)>=g_p0&&(g_q^3)<i)||g_d[g_q]==(unsigned char)g_qv", "xor==3"],
             ptr={"strg": "{int x; strg=(char*)g_s+x;}"}, mem={"r4a": "__CPROVER_havoc_object(g_d);"}, keep=("xor",), name="copy")
    c = cut_loops(t, fn, [L])
    h = f'''int main(){{ int pd=vp_int(),pf=vp_int(),len=vp_int(); VP_ASSUME(pd>=0&&pf>=-1&&pf<(1<<28)&&pd<(1<<28)&&len>=0&&len<(1<<28)); g_p0=pd; g_n=len; g_m=pf-pd+1; if(g_m<0) g_m=0; if(len<g_m) g_m=len;
  unsigned sz=(pf>pd?pf:pd)+8; sz=sz&~3u; g_d=malloc(sz); g_s=malloc(len+1); g_q=vp_int(); VP_ASSUME(g_q>=0&&g_q<sz); int pos=(g_q^3)-pd, in=pos>=0&&pos<g_m; g_x=in?g_s[pos]:0; g_qv=g_d[g_q];
  int pd0=pd,pf0=pf; {fn}((char*)g_s,(char*)g_d,&pd,&pf,len);
  VP_ASSERT(g_d[g_q]==(in?g_x:g_qv),"byte b of the words is the character at its position, or unchanged"); VP_ASSERT(pd==pd0&&pf==pf0,"bounds unchanged"); VP_REACH("end"); }}'''
    run_cbmc(ctx, "strgr4a", PRELUDE + G + c + h, fn)


def fc(ctx):
    t = src("fstd98/FC_string.c")
    fn = "cstring_to_fstring"
    L1 = Loop(["i>=0&&i<=g_n&&i<=g_m", "(unsigned char*)fstring==g_d+i", "(unsigned char*)cstring==g_s+i", "!(g_k<i)||g_d[g_k]==(unsigned char)g_x", "g_d[g_q]==(unsigned char)g_qv"],
              sel=r"\*fstring = \*cstring|cstring", ptr={"fstring": "{int x; fstring=(char*)g_d+x;}", "cstring": "{int x; cstring=(const char*)g_s+x;}"}, mem={"fstring": "__CPROVER_havoc_object(g_d);"},
              lemma="VP_ASSUME(!(i<g_m)||*cstring!=0);VP_ASSUME(!(i==g_m)||*cstring==0);", name="copy")
    L2 = Loop(["j>=g_T&&j<=g_n", "(unsigned char*)fstring==g_d+j", "!(g_k<g_T)||g_d[g_k]==(unsigned char)g_x", "!(g_k>=g_T&&g_k<j)||g_d[g_k]==' '", "g_d[g_q]==(unsigned char)g_qv"],
              sel=r"' '", ptr={"fstring": "{int x; fstring=(char*)g_d+x;}"}, mem={"fstring": "__CPROVER_havoc_object(g_d);"}, pre='g_T=i; VP_ASSERT(g_T==(g_m<g_n?g_m:g_n),"copy stops at the terminator or at nc");', name="pad")
    c = cut_loops(t, fn, [L1, L2])
    h = f'''int main(){{ g_m=vp_int(); g_n=vp_int(); VP_ASSUME(g_m>=0&&g_m<(1<<28)&&g_n>=0&&g_n<(1<<28)); g_s=malloc(g_m+1); g_d=malloc(g_n+1); VP_ASSUME(g_s[g_m]==0);
  g_k=vp_int(); VP_ASSUME(g_k>=0&&g_k<g_n||g_n==0&&g_k==0); g_q=g_n; g_qv=g_d[g_q]; int in=g_k<g_m; g_x=in?g_s[g_k]:' ';
  {fn}((char*)g_s,(char*)g_d,g_n); VP_ASSERT(g_n==0||g_d[g_k]==g_x,"character k is that of the C string, blank past its end"); VP_ASSERT(g_d[g_q]==g_qv,"nothing is written past nc"); VP_REACH("end"); }}'''
    run_cbmc(ctx, fn, PRELUDE + G + c + h, fn)
    fn = "fstring_to_cstring"
    g = "g_d"
    L1 = Loop(["i>=0&&(i<=nc)", "ctemp==cstring+i", "(unsigned char*)fstring==g_s+i", "!(g_k<i)||cstring[g_k]==(char)g_x", "!(g_q<i&&g_q>=0)||cstring[g_q]==(char)g_qv"],
              sel=r"\*ctemp = \*fstring|fstring", ptr={"fstring": "{int x; fstring=(char*)g_s+x;}", "ctemp": "{int x; ctemp=cstring+x;}"}, mem={"ctemp": "__CPROVER_havoc_object(cstring);"}, name="copy")
    L2 = Loop(["g_T>=0&&g_T<=nc&&i==g_T", "ctemp==cstring+(g_T-1)", "!(g_k<g_T)||cstring[g_k]==(char)g_x", "!(g_k>=g_T&&g_k<nc)||(cstring[g_k]==0&&(char)g_x==' ')", "!(g_q<g_T)||cstring[g_q]==(char)g_qv", "!(g_q>=g_T&&g_q<nc)||(cstring[g_q]==0&&(char)g_qv==' ')", "cstring[nc]==0"],
              sel=r"' '", ptr={"ctemp": "{int x; ctemp=cstring+x;}"}, mem={"ctemp": "__CPROVER_havoc_object(cstring);"}, pre="g_T=nc;", ghost_out="g_T--;", extra="g_T=vp_int();",
              lemma='VP_ASSUME(!(g_q==g_T-1)||(char)g_qv==ctemp[0]);', name="trim", dec="i")
    c = cut_loops(t, fn, [L1, L2])
    # g_q is an arbitrary second index: instantiated by assumption below as the last kept character
    h = f'''int main(){{ g_n=vp_int(); VP_ASSUME(g_n>=0&&g_n<(1<<28)); g_s=malloc(g_n+1); g_k=vp_int(); VP_ASSUME(g_k>=0&&g_k<g_n||g_n==0&&g_k==0); g_q=vp_int(); VP_ASSUME(g_q>=0&&g_q<g_n||g_n==0&&g_q==0); int rm=vp_int(); g_T=g_n; g_x=g_s[g_k]; g_qv=g_s[g_q];
  char *r={fn}((char*)g_s,g_n,rm); VP_ASSERT(__CPROVER_OBJECT_SIZE(r)>=(unsigned long)g_n+1,"room for nc characters and the terminator");
  VP_ASSERT(r[g_n]==0,"terminated"); VP_ASSERT(rm||g_n==0||r[g_k]==(char)g_x,"without trimming character k is kept"); VP_ASSERT(!rm||g_n==0||(g_k<g_T?r[g_k]==(char)g_x:r[g_k]==0&&(char)g_x==' '),"only trailing blanks are removed");
  VP_ASSERT(!rm||!(g_T>0&&g_q==g_T-1)||(char)g_qv!=' ',"all trailing blanks are removed"); VP_ASSERT(g_n==0||g_s[g_k]==(unsigned char)g_x,"source unchanged"); VP_REACH("end"); }}'''
    run_cbmc(ctx, fn, PRELUDE + G + c + h, fn, opts=["--pointer-check"])


def strlen_(ctx):
    t = src("base/ftnStrLen.c")
    fn = "ftnStrLen"
    L = Loop(["len<maxLen", "!((unsigned)g_k>len)||(g_x==' '||g_x==0)"], lemma="VP_ASSUME(!(len==g_k)||(unsigned char)str[len]==g_x);", name="back", dec="len")
    c = cut_loops(t, fn, [L])
    h = f'''int main(){{ unsigned n=vp_uint(); VP_ASSUME(n>=1&&n<(1u<<28)); g_s=malloc(n); g_k=vp_int(); VP_ASSUME(g_k>=0&&g_k<n); g_x=g_s[g_k];
  unsigned r={fn}((char*)g_s,n); VP_ASSERT(r<=n,"length within the string"); VP_ASSERT(!((unsigned)g_k>=r)||g_x==' '||g_x==0,"only blanks and NULs follow"); VP_ASSERT(r==0||(g_s[r-1]!=' '&&g_s[r-1]!=0),"the last counted character is significant"); VP_REACH("end"); }}'''
    run_cbmc(ctx, fn, PRELUDE + G + c + h, fn)


def cases(ctx):
    t = fsrc(ctx, "primitives/up2low.f")
    for fn, f in (("up2low", "lo"), ("low2up", "up")):
        L1 = Loop(["i>=1&&i<=l+1", f"!(g_k<i-1)||s2[g_k]==(unsigned char){f}(g_x)", "s2[g_q]==(unsigned char)g_qv"], sel=r"char_\d|\+ 32|- 32|\+ -32", mem={"s2": "__CPROVER_havoc_object(s2);"}, name="convert")
        L2 = Loop(["i>=l+1&&i<=g_m+1", f"!(g_k<l)||s2[g_k]==(unsigned char){f}(g_x)", "!(g_k>=l&&g_k<i-1)||s2[g_k]==32", "s2[g_q]==(unsigned char)g_qv"], sel=r"= 32;", mem={"s2": "__CPROVER_havoc_object(s2);"}, name="pad")
        c = cut_loops(t, fn, [L1, L2])
        h = f'''int main(){{ g_n=vp_int(); g_m=vp_int(); VP_ASSUME(g_n>=0&&g_n<(1<<28)&&g_m>=0&&g_m<(1<<28)); g_s=malloc(g_n+1); g_d=malloc(g_m+1); g_k=vp_int(); VP_ASSUME(g_k>=0&&g_k<g_m||g_m==0&&g_k==0); g_q=g_m; g_qv=g_d[g_q]; int in=g_k<g_n; g_x=in?g_s[g_k]:0;
  {fn}(g_s,g_d,g_n,g_m); VP_ASSERT(g_m==0||g_d[g_k]==(in?{f}(g_x):32),"character k has its case changed if and only if it is such a letter; blanks past the source"); VP_ASSERT(g_d[g_q]==g_qv,"nothing is written past the destination"); VP_ASSERT(!in||g_s[g_k]==g_x,"source unchanged"); VP_REACH("end"); }}'''
        run_cbmc(ctx, fn, FPRE + G + ftn.protos(c) + c + h, fn)


def fst(ctx):
    t = src("fstd98/fstd98.c")
    fn = "str_cp_init"
    c = "#include <stdint.h>\n" + func_text(t, fn)
    L = Loop(["i>=0&&i<=g_n-1", "!(g_k<i)||(unsigned char)dst[g_k]==(unsigned char)g_x", "dst[g_q]==(char)g_qv"], mem={"dst": "__CPROVER_havoc_object(dst);"}, name="copy")
    c = cut_loops(c, fn, [L])
    h = f'''int main(){{ g_n=vp_int(); g_m=vp_int(); VP_ASSUME(g_n>=1&&g_n<(1<<28)&&g_m>=0&&g_m<(1<<28)); g_d=malloc(g_n+1); g_s=malloc(g_m+1); g_q=g_n; g_qv=g_d[g_n]; g_k=vp_int(); VP_ASSUME(g_k>=0&&g_k<g_n); g_x=g_k<g_m?g_s[g_k]:' ';
  {fn}((char*)g_d,g_n,(char*)g_s,g_m); VP_ASSERT(g_d[g_k]==(g_k==g_n-1?0:g_x),"character k copied, blank past the source, NUL at the end"); VP_ASSERT((char)g_d[g_n]==(char)g_qv,"nothing past the destination"); VP_REACH("end"); }}'''
    run_cbmc(ctx, fn, PRELUDE + G + c + h, fn)
    for fn, dt, st, dp, sp, spec, bits in (("memcpy_8_16", "int16_t", "int8_t", "p16", "p8", "(uint8_t)g_x", ""), ("memcpy_16_8", "int8_t", "int16_t", "p8", "p16", "(int8_t)g_x", ""),
                                   ("memcpy_16_32", "int32_t", "int16_t", "p32", "p16", "(int32_t)((unsigned)g_x&((1u<<g_T)-1))", "g_T,"), ("memcpy_32_16", "int16_t", "int32_t", "p16", "p32", "(int16_t)((unsigned)g_x&((1u<<g_T)-1))", "g_T,")):
        cmp = "uint8_t" if fn == "memcpy_8_16" else dt   # the field is a token: whether it is widened with its sign is Z01's matter
        L = Loop(["i>=0&&i<=g_n", f"{dp}==({dt}*)g_d+i", f"{sp}==({st}*)g_s+i", f"!(g_k<i)||({cmp})(({dt}*)g_d)[g_k]=={spec}", f"(({dt}*)g_d)[g_q]==({dt})g_qv"],
                 ptr={dp: f"{{unsigned x; {dp}=({dt}*)g_d+x;}}", sp: f"{{unsigned x; {sp}=({st}*)g_s+x;}}"}, mem={dp: "__CPROVER_havoc_object(g_d);"}, name="convert")
        c = cut_loops("#include <stdint.h>\n" + func_text(t, fn), fn, [L])
        h = f'''int main(){{ g_n=vp_int(); VP_ASSUME(g_n>=0&&g_n<(1<<27)); g_d=malloc(4ul*g_n+4); g_s=malloc(4ul*g_n+4); g_T=vp_int(); VP_ASSUME(g_T>=1&&g_T<=16); g_q=g_n; g_qv=(({dt}*)g_d)[g_n]; g_k=vp_int(); VP_ASSUME(g_k>=0&&g_k<g_n||g_n==0&&g_k==0); g_x=(({st}*)g_s)[g_k];
  {fn}(({dt}*)g_d,({st}*)g_s,{bits}g_n); VP_ASSERT(g_n==0||({cmp})(({dt}*)g_d)[g_k]=={spec},"element k converted"); VP_ASSERT((({dt}*)g_d)[g_n]==({dt})g_qv,"nothing past the destination"); VP_REACH("end"); }}'''
        run_cbmc(ctx, fn, PRELUDE + G + c + h, fn)
    # round trips on one element: lemmas over the contracts
    lem = '''int main(){ int nb=vp_int(); VP_ASSUME(nb>=1&&nb<=16); unsigned v=vp_uint(); VP_ASSUME(v<(1u<<nb)); short a=(short)(v&((1u<<nb)-1)); VP_ASSERT((((unsigned)(int)a)&((1u<<nb)-1))==v,"lemma: 32 to 16 to 32 bits restores every value below 2^nbits");
  signed char b=vp_uchar(); VP_ASSERT((signed char)(short)b==b,"lemma: 8 to 16 to 8 bits restores every byte"); VP_REACH("end"); }'''
    run_cbmc(ctx, "narrow lemmas", PRELUDE + lem, "memcpy_*")


def rah(ctx):
    t = src("primitives/rah2char.c")
    h = '''int main(){ int nc=vp_int(),lng=vp_int(),nc0=nc; VP_ASSUME(nc>=0&&nc<=4&&lng>=0); int m=nc<lng?nc:lng; unsigned char d[5],o[5]; for(int i=0;i<5;i++) o[i]=d[i]; int w=vp_int(),w0=w;
  rah2char_((char*)d,&w,&nc,lng); for(int i=0;i<5;i++) VP_ASSERT(d[i]==(i<m?(((unsigned)w0)>>(8*(m-1-i)))&255:o[i]),"character i is the i-th of the low-order nc bytes, others unchanged"); VP_ASSERT(w==w0&&nc==nc0,"arguments unchanged");
  unsigned char s[4]; int e=vp_int(); unsigned e0=e; nc=nc0; for(int i=0;i<4;i++) o[i]=s[i]; char2rah_((char*)s,&e,&nc,lng); unsigned x=e0; for(int i=0;i<m;i++) x=x<<8|o[i]; VP_ASSERT((unsigned)e==x,"characters are shifted in from the right, first one highest"); for(int i=0;i<4;i++) VP_ASSERT(s[i]==o[i],"string unchanged");
  nc=nc0; rah2char_((char*)d,&e,&nc,lng); for(int i=0;i<4;i++) VP_ASSERT(!(i<m)||d[i]==o[i],"char2rah then rah2char restores the characters"); VP_REACH("end"); }'''
    run_cbmc(ctx, "rah2char char2rah", PRELUDE + G + t + h, "rah2char char2rah", unwind=6)


def ftn2c(ctx):
    t = src("primitives/ftn2c_helper_c.c")
    fn = "ftn2c_string_copy"
    # g_n: length bound given, g_m: significant length (first NUL or lsrc), g_T: after trimming
    L1 = Loop(["i>=0&&i<=g_m", "lsrc==g_n"], sel=r"src\s*\[\s*i\s*\]\s*!=\s*0", lemma="VP_ASSUME(i>=g_n||(i<g_m?src[i]!=0:1)); VP_ASSUME(!(i==g_m&&g_m<g_n)||src[i]==0);", name="scan")
    L2 = Loop(["lsrc>=0&&lsrc<=g_m", "!(g_k>=lsrc&&g_k<g_m)||g_x==' '", "g_T==lsrc"], sel=r"' '", pre="g_T=lsrc;", ghost_out="g_T=lsrc;", extra="g_T=vp_int();", lemma="VP_ASSUME(!(g_k==lsrc-1)||src[g_k]==(unsigned char)g_x);", name="trim", dec="lsrc")
    L3 = Loop(["i>=0&&i<=lsrc", "!(g_q<i)||dest[g_q]==(unsigned char)g_qv", "!(g_q>=i)||dest[g_q]==(unsigned char)g_x2"], sel=r"dest\[i\] = src\[i\]|src", mem={"dest": "__CPROVER_havoc_object(dest);"},
              lemma="VP_ASSUME(!(g_q==i&&i<lsrc)||src[i]==(unsigned char)g_qv);", name="copy")
    L4 = Loop(["i>=g_T&&i<=ldest", "!(g_q<g_T)||dest[g_q]==(unsigned char)g_qv", "!(g_q>=g_T&&g_q<i)||dest[g_q]==pad", "!(g_q>=i)||dest[g_q]==(unsigned char)g_x2"], sel=r"=\s*pad", mem={"dest": "__CPROVER_havoc_object(dest);"}, name="pad")
    c = cut_loops(t, fn, [L1, L2, L3, L4])
    h = f'''int main(){{ g_n=vp_int(); VP_ASSUME(g_n>=0&&g_n<(1<<28)); g_m=vp_int(); VP_ASSUME(g_m>=0&&g_m<=g_n); g_s=malloc(g_n); int ld=vp_int(); VP_ASSUME(ld>=0&&ld<(1<<28)); g_d=malloc(ld+1); unsigned char pad=vp_uchar();
  VP_ASSUME(!(g_m<g_n)||g_s[g_m<g_n?g_m:0]==0);
  g_k=vp_int(); VP_ASSUME(g_k>=0&&g_k<g_n||g_n==0&&g_k==0); g_x=g_n?g_s[g_k]:0; g_q=vp_int(); VP_ASSUME(g_q>=0&&g_q<=ld); int in=g_q<g_n; g_qv=in?g_s[g_q]:0; g_x2=g_d[g_q];
  int r={fn}(g_s,g_d,g_n,ld,pad); int T=g_T; VP_ASSERT(T>=0&&T<=g_m,"significant length within the source"); VP_ASSERT(!(g_n&&g_k>=T&&g_k<g_m)||g_x==' ',"only blanks are trimmed"); VP_ASSERT(T==0||g_s[T-1]!=' ',"all trailing blanks are trimmed");
  VP_ASSERT(r==((T>ld||(pad==0&&T==ld))?-1:T),"returns the trimmed length, or -1 when it does not fit");
  VP_ASSERT(r<0 ? g_d[g_q]==(unsigned char)g_x2 : (g_q<T ? g_d[g_q]==(unsigned char)g_qv : (pad ? (g_q<ld ? g_d[g_q]==pad : g_d[g_q]==(unsigned char)g_x2) : (g_q==T ? g_d[g_q]==0 : g_d[g_q]==(unsigned char)g_x2))),"destination is the trimmed source followed by the padding, nothing else written"); VP_REACH("end");
  VP_ASSERT({fn}(g_s,0,g_n,ld,pad)>=0,"without a destination only the length is returned"); }}'''
    run_cbmc(ctx, fn, PRELUDE + G + c + h, fn)


def run(ctx):
    ctx.under_contract("r4astrg", "strgr4a", "cstring_to_fstring", "fstring_to_cstring", "ftnStrLen", "up2low", "low2up", "str_cp_init", "memcpy_8_16", "memcpy_16_8", "memcpy_16_32", "memcpy_32_16", "rah2char", "char2rah", "ftn2c_string_copy")
    ctx.assume("lengths below 2^28; source and destination do not overlap", "little-endian machine", "malloc succeeds", "rah2char/char2rah: at most 4 characters", "a string is described by the position of its first NUL; 'every earlier character is not NUL' is instantiated at the loop index",
               "fill_string_array, ftn2c_cstra_fstra, ftn2c_fstra_cstra only covered by the native oracle")
    ctx.trusted += TB_C + TB_F[1:2]
    P = f"{REPO}/src/"

    def nat():
        t = src("fstd98/fstd98.c")
        ctx.write("c01_fst.c", "#include <stdint.h>\n" + "\n".join(func_text(t, f).replace("static void", "void") for f in ("str_cp_init", "memcpy_8_16", "memcpy_16_8", "memcpy_16_32", "memcpy_32_16")))
        A = ["-fsanitize=address"]
        native(ctx, "chars", [lambda: ctx.cobj(P + "fstd98/r4astrg.c"), lambda: ctx.cobj(P + "fstd98/strgr4a.c"), lambda: ctx.cobj(P + "fstd98/FC_string.c", extra=[f"-I{VERIF}/stubs"] + A), lambda: ctx.cobj(P + "base/ftnStrLen.c", extra=A), lambda: ctx.fobj(P + "primitives/up2low.f"),
                               lambda: ctx.cobj(P + "primitives/rah2char.c", extra=[f"-I{VERIF}/stubs"]), lambda: ctx.cobj(P + "primitives/ftn2c_helper_c.c", extra=A), lambda: ctx.cobj(ctx.path("c01_fst.c"))], lang="f", link=A, extra=A)
    ctx.parallel([("native", nat)] + [(f.__name__, lambda f=f: f(ctx)) for f in (r4, fc, strlen_, cases, fst, rah, ftn2c)])
    return "proof", "character k of every result is the stated character of the source and nothing else is written, for strings of any length; CBMC on loops cut at invariants"
