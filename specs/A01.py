from specs.common import *

G = r'''
static const unsigned char ALPH[]="0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ/?: ";
static inline int ord(int c){ for(int i=0;i<40;i++) if(ALPH[i]==c) return i; return 36; }
int _gfortran_pow_i4_i4(int a,int n){ int r=1; VP_ASSERT(n>=0&&n<=6,"call: exponent within the modelled range"); for(int i=0;i<6;i++) if(i<n) r*=a; return r; }
static int d[8],od[7],g_o; static long val[8]; static long pre[9]; static int g_w;
'''


def enc(ctx, n):
    t = fsrc(ctx, "base/cvt_base40.f")
    I = Loop(["iord>=0&&iord<=40", "!(g_o<iord)||icar[0]!=ALPH[g_o]", "!(g_o<40)||icar[0]==ALPH[g_o]", "value==(int)val[ii-1]"], sel=r"bse40\[\(vp_i8\) iord\]", keep=("value",), name="search",
             lemma="VP_ASSUME(iord>=g_o||icar[0]!=ALPH[iord]);")
    O = Loop([f"ii>=1&&ii<={n}+1", "ncars==%d" % n, "value==(int)val[ii-1]"], sel=r"string\[", mem={"icar": "__CPROVER_havoc_object(icar);"}, ghost_in="g_o=od[ii-1];", extra="g_o=vp_int();", keep=("ncars",), name="characters", lemma="")
    c = cut_loops(t, "ctob40", [I, O])
    h = f"""int main(){{ unsigned char s[{n}+1],o[{n}+1]; val[0]=0; long P=1,p[7]; for(int i={n}-1;i>=0;i--){{ p[i]=P; P*=40; }} for(int i=0;i<{n};i++){{ o[i]=s[i]; od[i]=vp_int(); VP_ASSUME(od[i]>=0&&od[i]<=40); VP_ASSUME(od[i]==40||s[i]==ALPH[od[i]]); if(od[i]==40) for(int j=0;j<40;j++) VP_ASSUME(s[i]!=ALPH[j]); val[i+1]=val[i]+(od[i]<40?od[i]:36)*p[i]; VP_ASSUME(val[i+1]<2147483648L); }}
  int r=ctob40(s,{n}); VP_ASSERT(r==val[{n}],"the word is the sum of the character ranks times powers of 40, an illegal one counting as a slash"); for(int i=0;i<{n};i++) VP_ASSERT(s[i]==o[i],"string unchanged"); VP_REACH("end"); }}"""
    run_cbmc(ctx, f"ctob40 length {n}", FPRE + ftn.protos(c) + G + c + h, "ctob40", unwind=41, timeout=200)


def dec(ctx):
    t = fsrc(ctx, "base/cvt_base40.f")
    L = Loop(["iord>=0&&iord<=8", "word==pre[iord]"] + [f"!({j}>=iord)||__result[{j}]==ALPH[d[{j}]]" for j in range(8)] + ["__result[8]==0xEE"],
             mem={"__result": "__CPROVER_havoc_object(__result);"}, keep=("icar",), name="digits")
    c = cut_loops(t, "b40toc", [L])
    h = '''int main(){ unsigned char r[9]; r[8]=0xEE; pre[0]=0; for(int i=0;i<8;i++){ d[i]=vp_int(); VP_ASSUME(d[i]>=0&&d[i]<40); pre[i+1]=pre[i]*40+d[i]; VP_ASSUME(pre[i+1]<2147483648L); } int w=pre[8],w0=w;
  b40toc(r,8,&w); for(int i=0;i<8;i++) VP_ASSERT(r[i]==ALPH[d[i]],"character i is base-40 digit i"); VP_ASSERT(r[8]==0xEE&&w==w0,"nothing else is written"); VP_REACH("end"); }'''
    run_cbmc(ctx, "b40toc", FPRE + G + c + h, "b40toc", unwind=41, timeout=200)
    # lemmas: the alphabet is injective, every legal string comes back, every non-negative word has such digits
    h = '''int main(){ int a=vp_int(),b=vp_int(); VP_ASSUME(a>=0&&a<40&&b>=0&&b<40); VP_ASSERT(a==b||ALPH[a]!=ALPH[b],"lemma: the alphabet has no duplicates"); VP_ASSERT(ord(ALPH[a])==a,"lemma: decoding a digit and encoding it gives it back"); VP_REACH("end"); }'''
    run_cbmc(ctx, "alphabet lemmas", PRELUDE + G + h, "ctob40 b40toc", unwind=41)


def run(ctx):
    ctx.under_contract("ctob40", "b40toc")
    ctx.assume("strings of at most six characters whose base-40 value fits a non-negative 32-bit word (longer ones cannot be represented); words are non-negative", "_gfortran_pow_i4_i4 computes integer powers (stated as its contract, exponent 0..6)",
               "every non-negative word has base-40 digits (existence of the positional representation) is assumed mathematics")
    ctx.trusted += TB_F
    ctx.parallel([("native", lambda: native(ctx, "base40", [lambda: ctx.fobj(f"{REPO}/src/base/cvt_base40.f")], lang="f")), ("dec", lambda: dec(ctx))] + [(f"enc{n}", lambda n=n: enc(ctx, n)) for n in range(7)])
    return "proof", "encoding is the base-40 positional value for every string of up to six characters, decoding returns the digits of every non-negative word; CBMC"
