"""Shared contracts for compact_integer / compact_short / compact_char (token packer)."""
from vp.cut import *
from vp import smt

SRC = f"{REPO}/src/packers/compact_integer.c"

# One arbitrary element k and one arbitrary bit t of its token, one arbitrary foreign stream bit q: proving the
# statement for these ghosts proves it for every element, every bit and every foreign bit.
GHOST = r'''
static int g_it,g_cur,g_k,g_t,g_n,g_nb,g_off,g_pos,g_end,g_words,g_src,g_seen; static unsigned g_bit,g_qbit; static int g_q;
static unsigned g_hdr[4]; static %(T)s g_x; static %(T)s *g_base; static %(W)s g_lo,g_hi; static unsigned *g_pk;
static inline unsigned g_view(unsigned*a,int cur,unsigned last,int space,int q){ int w=q>>5; unsigned v= (w==cur && space<32)? (last<<space):a[w]; return (v>>(31-(q&31)))&1u; }
static inline unsigned g_mask(void){ return 0xffffffffu>>(32-g_nb); }
static inline unsigned g_token(%(T)s x){ return %(TOK)s; }
'''

LEM = ("__CPROVER_assume((i<intCount*stride)==(g_it<g_n));"
       "__CPROVER_assume(g_it>=g_n ? g_cur==g_end : (g_cur+g_nb<=g_end));")


def lemmas(ctx):
    """Facts about the products k*stride and off+k*nb used (as assumptions) inside the bit-vector obligations."""
    ctx.parallel([
        ("l1", lambda: smt.lemma(ctx, "index-bound: i=it*stride, stride>0 => (i<n*stride <=> it<n)", "it n stride i",
                                 ["(> stride 0)", "(>= it 0)", "(> n 0)", "(= i (* it stride))"], "(= (< i (* n stride)) (< it n))")),
        ("l2", lambda: smt.lemma(ctx, "index-step: (it+1)*stride = it*stride+stride", "it stride", [], "(= (* (+ it 1) stride) (+ (* it stride) stride))")),
        ("l3", lambda: smt.lemma(ctx, "bitpos-bound: cur=off+it*nb, it<n => cur+nb<=off+n*nb", "it n nb off cur",
                                 ["(> nb 0)", "(<= 0 it)", "(< it n)", "(= cur (+ off (* it nb)))"], "(<= (+ cur nb) (+ off (* n nb)))")),
        ("l4", lambda: smt.lemma(ctx, "bitpos-step: off+(it+1)*nb = off+it*nb+nb", "it nb off", [], "(= (+ off (* (+ it 1) nb)) (+ (+ off (* it nb)) nb))")),
    ])


def pack_loop(arr, hdr):
    inv = ["g_it>=0 && g_it<=g_n && i>=0", "spaceInLastWord>=0 && spaceInLastWord<=32", "g_cur>=g_off && g_cur<=g_end",
           "lastSlot>=0 && (lastSlot<g_words || (lastSlot==g_words&& spaceInLastWord==32))",
           "32*lastSlot+32-spaceInLastWord == g_cur",
           "arrayPtr==&arrayOfPacked[lastSlot]",
           "g_seen==(g_k<g_it)",
           "!(g_k<g_it) || (g_pos>=g_off && g_pos<g_cur)",
           "!(g_k<g_it) || g_view(arrayOfPacked,lastSlot,lastWordShifted,spaceInLastWord,g_pos)==g_bit",
           "!(g_q<g_off) || g_view(arrayOfPacked,lastSlot,lastWordShifted,spaceInLastWord,g_q)==g_qbit",
           "!((g_q>>5)>=lastSlot) || g_view(arrayOfPacked,lastSlot,0,32,g_q)==g_qbit"]
    sel = (r"for.*tempInt = \(\(%s\[i\]|for.*>> shiftRequired" if hdr else r"for.*tempInt = %s\[i\] \+ positiveMask")
    sel = (r"tempInt = \(+%s\[i\]\s*-.*?>>\s*shiftRequired" % arr) if hdr else (r"tempInt = %s\[i\] \+ positiveMask" % arr)
    return Loop(inv, sel=sel, ptr={"arrayPtr": "{unsigned x; arrayPtr=arrayOfPacked+x;}"},
                mem={"arrayPtr": "__CPROVER_havoc_object(arrayOfPacked);"},
                pre="g_it=0;g_cur=g_off;g_seen=0;",
                ghost_in=f"if(g_it==g_k){{g_seen=1;g_pos=g_cur+g_t; g_x={arr}[i]; g_bit=(g_token(g_x)>>(g_nb-1-g_t))&1u;}}",
                ghost_out="g_it++;g_cur+=g_nb;", extra=f"g_it=vp_int();g_cur=vp_int();g_pos=vp_int();g_bit=vp_uint();g_seen=vp_int();{{__typeof__(g_x) h; g_x=h;}}",
                lemma=LEM, name="pack")


def pack32_loop(arr, hdr):
    inv = ["g_it>=0 && g_it<=g_n && i==g_n-g_it", "g_cur==g_off+32*g_it", "g_cur<=g_end", "arrayPtr==arrayOfPacked+(g_cur>>5)",
           "g_src>=0 && g_src<=64*g_it", f"{arr}==g_base+g_src", "g_seen==(g_k<g_it)",
           "!(g_k<g_it) || (g_pos>=g_off && g_pos<g_cur)",
           "!(g_k<g_it) || g_view(arrayOfPacked,0,0,32,g_pos)==g_bit",
           "!(g_q<g_off||g_q>=g_end) || g_view(arrayOfPacked,0,0,32,g_q)==g_qbit"]
    sel = (r"\*arrayPtr = \(\(\*%s - .*>> shiftRequired" % arr) if hdr else (r"\*arrayPtr = \*%s \+ positiveMask" % arr)
    return Loop(inv, sel=sel, ptr={"arrayPtr": "{unsigned x; arrayPtr=arrayOfPacked+x;}", arr: f"{{unsigned x; {arr}=g_base+x;}}"},
                mem={"arrayPtr": "__CPROVER_havoc_object(arrayOfPacked);"},
                pre="g_it=0;g_cur=g_off;g_src=0;g_seen=0;",
                ghost_in=f"if(g_it==g_k){{g_seen=1;g_pos=g_cur+g_t; g_x={arr}[0]; g_bit=(g_token(g_x)>>(g_nb-1-g_t))&1u;}}",
                ghost_out="g_it++;g_cur+=32;g_src+=stride;", extra="g_it=vp_int();g_cur=vp_int();g_pos=vp_int();g_bit=vp_uint();g_src=vp_int();g_seen=vp_int();{__typeof__(g_x) h; g_x=h;}",
                lemma="__CPROVER_assume(g_it>=g_n ? g_cur==g_end : (g_cur+g_nb<=g_end));", name="pack32")


def minmax_loop(arr, mn, mx):
    """extreme values: within the caller's bounds lo..hi, and bounding the arbitrary element k"""
    inv = ["g_it>=1 && g_it<=g_n && i>=0", f"({mn})<=({mx})", f"(g_lo)<=({mn}) && ({mx})<=(g_hi)",
           f"!(g_k<g_it) || (({mn})<=(g_mk) && (g_mk)<=({mx}))"]
    return Loop(inv, sel=r"%s\[i\] < %s" % (arr, mn),
                pre=f"g_it=1; __CPROVER_assume(g_lo<=({arr}[0]) && ({arr}[0])<=g_hi); if(g_k==0) g_mk={arr}[0];",
                ghost_in=f"__CPROVER_assume(g_lo<=({arr}[i]) && ({arr}[i])<=g_hi); if(g_it==g_k) g_mk={arr}[i];",
                ghost_out="g_it++;", extra="g_it=vp_int(); if(g_k>=1) {__typeof__(g_mk) h; g_mk=h;}",
                lemma="__CPROVER_assume((i<intCount*stride)==(g_it<g_n));", name="minmax", optional=False)


def maxspan_loop(arr):
    """bit-or of all the elements: covers the arbitrary element k"""
    return Loop(["g_it>=1 && g_it<=g_n && i>=0", "!(g_k<g_it) || (g_mk & ~maxSpan)==0"], sel=r"maxSpan \|= %s\[i\]" % arr,
                pre=f"g_it=1; if(g_k==0) g_mk={arr}[0];", ghost_in=f"if(g_it==g_k) g_mk={arr}[i];", ghost_out="g_it++;",
                extra="g_it=vp_int(); if(g_k>=1) {__typeof__(g_mk) h; g_mk=h;}", lemma="__CPROVER_assume((i<intCount*stride)==(g_it<g_n));", name="maxspan")


def unpack_loop(arr, hdr):
    inv = ["g_it>=0 && g_it<=g_n && i>=0", "bitPackInFirstWord>=1 && bitPackInFirstWord<=32", "g_cur>=g_off && g_cur<=g_end",
           "g_slot>=0 && g_slot<g_words && 32*g_slot+32-bitPackInFirstWord == g_cur", "arrayPtr==arrayOfPacked+g_slot",
           "currentWord == (arrayOfPacked[g_slot] << (32-bitPackInFirstWord))",
           "g_seen==(g_k<g_it)",
           f"!(g_k<g_it) || {arr}[g_ki]==g_out",
           "!(g_k<g_it) || (g_ki>=0 && g_ki<i)",
           "!(g_k<g_it) || (g_pos>=g_off && g_pos<g_cur)"]
    return Loop(inv, sel=(r"%s\[i\] = \(packInt <<" % arr) if hdr else (r"%s\[i\] = packInt \+" % arr),
                ptr={"arrayPtr": "{unsigned x; arrayPtr=arrayOfPacked+x;}"}, mem={arr: f"__CPROVER_havoc_object({arr});"},
                pre="g_it=0;g_cur=g_off;g_slot=g_off>>5;g_seen=0;",
                ghost_in="if(g_it==g_k){g_seen=1;g_pos=g_cur+g_t; g_ki=i;}",
                ghost_out=f"if(g_it==g_k){{g_out={arr}[g_ki];g_pi=packInt;"
                          "VP_ASSERT(((packInt>>(g_nb-1-g_t))&1u)==g_view(arrayOfPacked,0,0,32,g_pos),\"unpacked token carries the stream bits of its position\");"
                          "VP_ASSERT((packInt & ~g_mask())==0,\"unpacked token has no bit beyond its width\");"
                          f"VP_ASSERT({arr}[g_ki]==(__typeof__({arr}[0]))g_value(packInt),\"element equals the value of its token\");}}"
                          "g_it++;g_cur+=g_nb;g_slot=arrayPtr-arrayOfPacked;",
                extra="g_it=vp_int();g_cur=vp_int();g_pos=vp_int();g_slot=vp_int();g_ki=vp_int();g_seen=vp_int();{__typeof__(g_out) h; g_out=h;}",
                lemma=LEM + "__CPROVER_assume(i>=0);", name="unpack")


def insert_before(t, func, txt):
    s, b, e = find_func(t, func)
    d = decl_start(t, s)
    return t[:d] + txt + t[d:]


NOBIG = "VP_ASSUME(n>=1 && n<(1<<24)); VP_ASSUME(off>=0 && off<(1<<20)); VP_ASSUME(st>=1&&st<=64);"


def pack_job(ctx, src, fn, op, hdr, nb, aligned, cfg, auto=False):
    arr, T, W, signed, sub = cfg["arr"], cfg["T"], cfg["W"], cfg["signed"], cfg["sub"]
    if hdr:
        tok = ("(((unsigned)x-g_hdr[2])" if sub else "(((unsigned)x)") + ">>((g_hdr[0]>>6)&63))&g_mask()"
        if signed:
            tok = "((unsigned)((int)x-(int)g_hdr[2])>>((g_hdr[0]>>6)&63))&g_mask()"
    else:
        tok = "((unsigned)x+(1u<<(g_nb-1)))&g_mask()" if signed else "((unsigned)x)&g_mask()"
    gh = GHOST % dict(T=T, W=W, TOK=tok) + f"static {T} g_mk;\n"
    loops = [pack_loop(arr, hdr)] + ([pack32_loop(arr, hdr)] if auto or (nb == 32 and cfg.get('fast32')) else [])
    if auto:   # the width is detected: prove it is usable, then case-split on its value
        for l in loops:
            l.pre = ('VP_ASSERT(bitSizeOfPackedToken>=1 && bitSizeOfPackedToken<=32,"detected width is usable");'
                     f'VP_ASSUME(bitSizeOfPackedToken=={nb}); bitSizeOfPackedToken={nb};'
                     'VP_ASSERT(cleanupMask==g_mask(),"token mask matches the detected width");') + l.pre
    t = src
    if hdr:
        loops.insert(0, minmax_loop(arr, cfg["mn"], cfg["mx"]))
    elif auto and signed:
        l = minmax_loop(arr, cfg["mn"], cfg["mx"])
        l.nth = 1      # the first such loop belongs to the header form
        loops.insert(0, l)
    elif auto:
        loops.insert(0, maxspan_loop(arr))
    t = cut_loops(t, fn, loops)
    H = "g_hdr" if hdr else "0"
    post = ""
    if hdr:
        post = f'''
  unsigned sh=(g_hdr[0]>>6)&63; {W} mn=({W})({'(int)' if signed else ''}g_hdr[2]), mx=({W})({'(int)' if signed else ''}g_hdr[3]);
  VP_ASSERT((g_hdr[0]>>24)==0xFD && (g_hdr[0]&63)==nb,"header identifies the packer and the token width");
  VP_ASSERT(g_hdr[1]==(unsigned)n,"header carries the element count");
  VP_ASSERT(mn<=g_mk && g_mk<=mx,"header minimum and maximum bound every element");
  VP_ASSERT(g_lo<=mn && mx<=g_hi,"header minimum and maximum are within the data");
  unsigned rng=(unsigned)(mx-mn);
  VP_ASSERT(sh<=32 && (sh==0 || (((unsigned long)rng)>>(sh+nb))==0),"shift covers the range");
  VP_ASSERT(sh==0 ? ((unsigned long)rng>>nb)==0 : (((unsigned long)rng)>>(sh-1+nb))!=0,"shift is the smallest sufficient one: exact when the range fits");
'''
    autopost = ""
    if auto and hdr:
        autopost = 'VP_ASSERT(sh==0,"detected width holds the whole range: nothing is shifted out");'
    elif auto:
        autopost = 'VP_ASSERT((((unsigned long)(long)g_mk' + (f'+(1ul<<{nb-1}))>>{nb})==0' if signed else f')>>{nb})==0') + ',"detected width holds every element");'
    h = f'''
int main(){{
  int n=vp_int(), off=vp_int(), nb={nb}, st=vp_int();
  {NOBIG}
  {"VP_ASSUME((off&31)==0);" if aligned else ""}
  g_n=n;g_nb=nb;g_off=off; g_end=vp_int(); VP_ASSUME(g_end>=off+nb&&g_end<(1<<29)+(1<<21));
  {"VP_ASSUME((g_end&31)==0);" if aligned else ""}
  g_words=(g_end+31)>>5;
  {T} *src=malloc(sizeof({T})*(unsigned long)vp_uint()); unsigned *dst=malloc(sizeof(unsigned)*(unsigned long)(g_words)); g_base=src; g_pk=dst;
  g_k=vp_int(); g_t=vp_int(); VP_ASSUME(g_k>=0&&g_k<n&&g_t>=0&&g_t<nb);
  g_q=vp_int(); VP_ASSUME(g_q>=0&&g_q<32*g_words&&(g_q<off||g_q>=g_end)); g_qbit=g_view(dst,0,0,32,g_q);
  {{__typeof__(g_lo) l,u; g_lo=l; g_hi=u;}}
  int r={fn}(src,{H},dst,n,{"-1" if auto else "nb"},off,st,{op});
  VP_ASSERT(r==nb,"returns the token width");
  VP_ASSERT(g_seen==1,"every element is packed");
  VP_ASSERT(g_view(dst,0,0,32,g_pos)==g_bit,"every bit of every token is in the stream at offset+k*width");
  VP_ASSERT(g_view(dst,0,0,32,g_q)==g_qbit,"bits outside the packed span are unchanged");
  {post}
  {autopost}
  VP_REACH("end");
}}
'''
    txt = insert_before(t, fn, PRELUDE + gh) + h
    run_cbmc(ctx, f"{fn} op{op}{' hdr' if hdr else ''} nbits={'auto:' if auto else ''}{nb}{' aligned' if aligned else ''}", txt, fn, unwind=34, timeout=260)


def unpack_job(ctx, src, fn, op, hdr, nb, cfg):
    arr, T, W, signed, sub = cfg["arr"], cfg["T"], cfg["W"], cfg["signed"], cfg["sub"]
    if hdr:
        val = "((tok<<((g_hdr[0]>>6)&63)) + " + ("g_hdr[2]" if sub else "0") + ")"
    else:
        val = "(tok - (1u<<(g_nb-1)))" if signed else "tok"
    gh = GHOST % dict(T=T, W=W, TOK="(unsigned)x") + f"static {T} g_out; static unsigned g_pi; static int g_slot,g_ki; static inline unsigned g_value(unsigned tok){{ return {val}; }}\n"
    t = cut_loops(src, fn, [unpack_loop(arr, hdr)])
    h = f'''
int main(){{
  int n=vp_int(), off=vp_int(), nb={nb}, st=vp_int();
  {NOBIG}
  g_n=n;g_nb=nb;g_off=off; g_end=vp_int(); VP_ASSUME(g_end>=off+nb&&g_end<(1<<29)+(1<<21));
  g_words=((g_end+31)>>5)+1;
  {T} *out=malloc(sizeof({T})*(unsigned long)vp_uint()); unsigned *pk=malloc(sizeof(unsigned)*(unsigned long)(g_words));
  g_k=vp_int(); g_t=vp_int(); VP_ASSUME(g_k>=0&&g_k<n&&g_t>=0&&g_t<nb);
  {"g_hdr[0]=0xFD000000u|(vp_uint()&63)<<6|" + str(nb) + "; g_hdr[1]=n; g_hdr[2]=vp_uint(); g_hdr[3]=vp_uint(); VP_ASSUME(((g_hdr[0]>>6)&63)<32);" if hdr else ""}
  int r={fn}(out,{"g_hdr" if hdr else "0"},pk,n,nb,off,st,{op});
  VP_ASSERT(r==nb,"returns the token width");
  VP_ASSERT(g_seen==1,"every element is unpacked");
  VP_ASSERT(out[g_ki]==g_out,"an unpacked element is not overwritten");
  VP_REACH("end");
}}
'''
    txt = insert_before(t, fn, PRELUDE + gh) + h
    run_cbmc(ctx, f"{fn} op{op}{' hdr' if hdr else ''} nbits={nb}", txt, fn, unwind=34, timeout=260)
