from specs.common import *
import math

SRC = f"{REPO}/src/primitives/"
# ------------------------------------------------------------------ ARC4
GA = r'''
void *memcpy(void*,const void*,unsigned long); void *malloc(unsigned long);
static int g_x,g_y,g_i,g_j,g_k,g_n,g_kk,g_kl,g_calls; static unsigned char g_m[256],g_u,g_ks,g_t,g_qv,*g_b,*g_key;
/* reference generator: one key byte */
static unsigned char gen(void){ unsigned char a,b; g_x=(g_x+1)&255; a=g_m[g_x]; g_y=(g_y+a)&255; b=g_m[g_y]; g_m[g_x]=b; g_m[g_y]=a; return g_m[(a+b)&255]; }
/* reference key schedule: one step */
static void ksa(int i){ unsigned char a; if(g_kk>=g_kl) g_kk=0; a=g_m[i]; g_y=(g_y+a+g_key[g_kk])&255; g_m[i]=g_m[g_y]; g_m[g_y]=a; g_kk++; }
'''


def crypt(ctx, t):
    fn = "arc4_crypt"
    L = Loop(["i>=0&&i<=g_n", "x==g_x&&x>=0&&x<256", "y==g_y&&y>=0&&y<256", "m[g_j]==g_m[g_j]", "buf[g_k]==(g_k<i?(unsigned char)(g_u^g_ks):g_u)", "buf[g_n]==g_qv"],
             mem={"m": "__CPROVER_havoc_slice(m,256);", "buf": "__CPROVER_havoc_object(buf);"}, pre="g_x=x;g_y=y;memcpy(g_m,m,256);g_ks=0;", extra="memcpy(g_m,m,256);g_x=vp_int();g_y=vp_int();g_ks=vp_uchar();",
             ghost_in="{unsigned char z=gen(); if(i==g_k) g_ks=z;}", name="bytes", keep=("ctx",))
    c = cut_loops(t, fn, [L])
    h = r'''int main(){ static arc4_context C; arc4_context *ctx=&C; __CPROVER_havoc_object(&C); VP_ASSUME(C.x>=0&&C.x<256&&C.y>=0&&C.y<256); g_n=vp_int(); VP_ASSUME(g_n>=0&&g_n<(1<<28)); g_b=malloc(g_n+1ul); g_k=vp_int(); VP_ASSUME(g_k>=0&&g_k<g_n||g_n==0&&g_k==0); g_j=vp_int()&255; g_u=g_b[g_k]; g_qv=g_b[g_n]; if(g_n==0) g_u=g_qv;
  arc4_crypt(ctx,g_b,g_n); VP_ASSERT(g_n==0||g_b[g_k]==(unsigned char)(g_u^g_ks),"byte k is combined with key byte k of the reference generator"); VP_ASSERT(C.x==g_x&&C.y==g_y&&C.m[g_j]==g_m[g_j],"the cipher state is the generator's after that many bytes"); VP_ASSERT(g_b[g_n]==g_qv,"nothing past the buffer is written"); VP_ASSERT((unsigned char)((unsigned char)(g_u^g_ks)^g_ks)==g_u,"lemma: the same key byte undoes it"); VP_REACH("end"); }'''
    run_cbmc(ctx, fn, PRELUDE + GA + c + h, fn, opts=["--pointer-check"])


def setup(ctx, t):
    fn = "arc4_setup"
    t = replace_body(t, "arc4_crypt", 'g_calls++; VP_ASSERT(ctx->x==0&&ctx->y==0&&buflen==1024,"call: 1024 key bytes are discarded from the start"); VP_ASSERT(ctx->m[g_j]==g_m[g_j]&&g_i==256,"call: the state is the key schedule of the key");')
    body = body_of(t, fn)
    L1 = Loop(["i>=0&&i<=256", "!(g_j<i)||m[g_j]==g_j"], sel=r"=\s*\(unsigned char\)\s*i\b", mem={"m": "__CPROVER_havoc_slice(m,256);"}, name="identity", keep=("ctx",))
    L2 = Loop(["i>=0&&i<=256&&g_i==i", "j==g_y&&j>=0&&j<256", "k==g_kk&&k>=0&&k<=g_kl", "m[g_j]==g_m[g_j]"], sel=r"key\[", mem={"m": "__CPROVER_havoc_slice(m,256);"}, pre='g_y=0;g_kk=0;g_i=0; VP_ASSERT(m[g_j]==g_j,"the schedule starts from the identity"); memcpy(g_m,m,256);',
              extra="memcpy(g_m,m,256);g_y=vp_int();g_kk=vp_int();g_i=vp_int();", ghost_in="ksa(i); g_i++;", name="schedule", keep=("ctx",))
    c = cut_loops(t, fn, [L1, L2])
    h = r'''int main(){ static arc4_context C; g_kl=vp_int(); VP_ASSUME(g_kl>=1&&g_kl<(1<<20)); g_key=malloc(g_kl); g_j=vp_int()&255; arc4_setup(&C,g_key,g_kl); VP_ASSERT(g_calls==1,"the first key bytes are discarded once"); VP_REACH("end"); }'''
    run_cbmc(ctx, fn, PRELUDE + GA + c + h, fn, opts=["--pointer-check"])


# ------------------------------------------------------------------ MD5
GM = r'''
static unsigned long g_left,g_N0,g_N1,g_len; static long g_c,g_pos; static int g_j,g_calls; static unsigned char g_bj,*g_in; 
/* byte rel of the stream that starts with the buffered bytes and goes on with the input */
static unsigned char strm(unsigned long rel){ if(rel<g_left) return g_bj; return g_in[rel-g_left]; }
static md5_context *g_ctx;
static void *vp_memcpy(void*d,const void*s,unsigned long n){ unsigned long off=(unsigned char*)d-g_ctx->buffer, so=(unsigned char*)s-g_in; VP_ASSERT(off<=64&&n<=64&&off+n<=64,"copy inside the block buffer"); VP_ASSERT(so<=g_len&&n<=g_len-so,"copy from inside the input"); if((unsigned long)g_j>=off&&(unsigned long)g_j<off+n) g_ctx->buffer[g_j]=((unsigned char*)s)[g_j-off]; return d; }
'''


def split_types(t):
    i = t.index("md5_context;") + len("md5_context;")
    return t[:i], t[i:]


def update(ctx, t):
    fn = "md5_update"
    t = replace_body(t, "md5_process", 'VP_ASSERT(data[g_j]==strm(64ul*g_c+g_j),"call: block c holds bytes 64c to 64c+63 of the stream"); g_c++; { unsigned long x0=vp_ulong(),x1=vp_ulong(); ctx->state[0]=x0; ctx->state[1]=x1; }')
    s, b, e = find_func(t, fn)
    t = t[:b] + re.sub(r"\bmemcpy\s*\(", "vp_memcpy(", t[b:e]) + t[e:]
    L = Loop(["ilen>=0&&g_pos>=0&&(unsigned long)g_pos<=g_len&&ilen==(long)g_len-g_pos", "input==g_in+g_pos", "(64*g_c==(long)g_left+g_pos&&left==0&&g_c>=0)||(g_c==0&&g_pos==0&&left==g_left&&ilen<64&&g_left+g_len<64)", "ctx->buffer[g_j]==g_bj||g_c>0", "g_ctx==ctx"],
             ptr={"input": "g_pos=vp_long(); VP_ASSUME(g_pos>=0&&(unsigned long)g_pos<=g_len); input=g_in+g_pos;"}, pre="g_pos=input-g_in;", extra="g_c=vp_long();", ghost_out="g_pos+=64;", name="blocks", keep=("ctx",))
    c = cut_loops(t, fn, [L])
    a, z = split_types(c)
    h = r'''int main(){ static md5_context C; __CPROVER_havoc_object(&C); g_ctx=&C; VP_ASSUME(C.total[0]<=0xffffffffu&&C.total[1]<(1ul<<61)); g_N0=C.total[0]; g_N1=C.total[1]; int n=vp_int(); g_len=n>0?n:0; g_in=malloc(g_len); g_j=vp_int()&63; g_bj=C.buffer[g_j]; g_left=g_N0&63;
  md5_update(&C,g_in,n); unsigned long N=((g_N1<<32)|g_N0)+g_len; VP_ASSERT(C.total[0]==(N&0xffffffffu)&&((C.total[1]<<32)|C.total[0])==N,"the byte count grows by the length of the input"); VP_ASSERT(64ul*g_c<=g_left+g_len&&g_left+g_len-64ul*g_c<64,"every complete block is processed, in order, and no other");
  VP_ASSERT((unsigned long)g_j>=g_left+g_len-64ul*g_c||C.buffer[g_j]==strm(64ul*g_c+g_j),"the incomplete block is kept for later"); VP_REACH("end"); }'''
    run_cbmc(ctx, fn, PRELUDE + "void *malloc(unsigned long);\n" + a + GM + z + h, fn, timeout=300)


def process(ctx, t):
    fn = "md5_process"
    body = body_of(t, fn)
    pat = re.compile(r"\{ ([ABCD]) \+= [^{}]*; \1 = [^{}]*; \}")
    ms = list(pat.finditer(body))
    if len(ms) != 64:
        raise ToolError(f"md5_process: {len(ms)} steps recognised, 64 expected")
    K = [int(abs(math.sin(i + 1)) * 2 ** 32) & 0xffffffff for i in range(64)]
    R = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]]
    out, last = [], 0
    for i, m in enumerate(ms):
        r = i // 16
        f = ["((rB&rC)|(~rB&rD))", "((rB&rD)|(rC&~rD))", "(rB^rC^rD)", "(rC^(rB|~rD))"][r]
        g = [i, (5 * i + 1) % 16, (3 * i + 5) % 16, (7 * i) % 16][r]
        s = R[r][i % 4]
        rel = "(unsigned)A==r%s&&(unsigned)B==r%s&&(unsigned)C==r%s&&(unsigned)D==r%s" % tuple("ABCD"[("ABCD".index(v) + k) % 4] for v, k in zip("ABCD", [(-(-(i + 1)) % 4)] * 4))
        # RFC 1321: (A,B,C,D) -> (D, B+rotl(A+f+K+M,s), B, C)
        step = f"{{ unsigned q=rA+{f}+{K[i]}u+rX[{g}]; unsigned n=rB+((q<<{s})|(q>>{32-s})); rA=rD; rD=rC; rC=rB; rB=n; }}"
        cut = f'VP_ASSERT({rel},"step {i}: the state is that of RFC 1321"); A=vp_ulong();B=vp_ulong();C=vp_ulong();D=vp_ulong();rA=vp_uint();rB=vp_uint();rC=vp_uint();rD=vp_uint(); VP_ASSUME({rel});'
        out.append(body[last:m.end()] + step + cut)
        last = m.end()
    body = "".join(out) + body[last:]
    # message words and start of the rounds
    a0 = body.index(ms[0].group(0)[:12])
    body = body[:a0] + 'VP_ASSERT((unsigned)X[g_w]==((unsigned)data[4*g_w]|(unsigned)data[4*g_w+1]<<8|(unsigned)data[4*g_w+2]<<16|(unsigned)data[4*g_w+3]<<24),"message words are little-endian"); VP_ASSERT((unsigned)A==s0[0]&&(unsigned)B==s0[1]&&(unsigned)C==s0[2]&&(unsigned)D==s0[3],"the rounds start from the state"); unsigned rA=A,rB=B,rC=C,rD=D,rX[16]; ' + "".join(f"X[{i}]=vp_ulong(); rX[{i}]=X[{i}];" for i in range(16)) + body[a0:]
    # final addition, with the end state of the rounds recorded
    e = body.rindex("ctx->state[0]")
    body = body[:e] + "g_e[0]=rA;g_e[1]=rB;g_e[2]=rC;g_e[3]=rD; " + body[e:]
    s, b, z = find_func(t, fn)
    c = t[:b] + body + t[z + 1:]
    a, rest = split_types(c)
    h = r'''int main(){ static md5_context C; __CPROVER_havoc_object(&C); unsigned char d[64]; g_w=vp_int()&15; for(int i=0;i<4;i++) s0[i]=C.state[i]; unsigned long n0=C.total[0],n1=C.total[1]; int k=vp_int()&63; unsigned char bk=C.buffer[k]; md5_process(&C,d);
  VP_ASSERT((unsigned)C.state[0]==s0[0]+g_e[0]&&(unsigned)C.state[1]==s0[1]+g_e[1]&&(unsigned)C.state[2]==s0[2]+g_e[2]&&(unsigned)C.state[3]==s0[3]+g_e[3],"the state is increased by the result of the rounds"); VP_ASSERT(C.total[0]==n0&&C.total[1]==n1&&C.buffer[k]==bk,"count and buffer unchanged"); VP_REACH("end"); }'''
    run_cbmc(ctx, fn, PRELUDE + a + "static unsigned s0[4],g_e[4]; static int g_w;\n" + rest + h, fn, unwind=5, timeout=400)


def rest(ctx, t):
    a, z = split_types(t)
    g = r'''
static unsigned char *u_in[3]; static int u_len[3],n_u,n_s,n_f; static unsigned char u_first,u_g,u_msg[8]; static unsigned g_st[4]; static int g_j; static md5_context *u_ctx; static unsigned char *f_out; static int ord;
'''
    # md5_starts
    h = r'''int main(){ static md5_context C; __CPROVER_havoc_object(&C); md5_starts(&C); VP_ASSERT(C.total[0]==0&&C.total[1]==0&&C.state[0]==0x67452301&&C.state[1]==0xEFCDAB89&&C.state[2]==0x98BADCFE&&C.state[3]==0x10325476,"initial state of RFC 1321"); VP_REACH("end"); }'''
    run_cbmc(ctx, "md5_starts", PRELUDE + a + z + h, "md5_starts")
    # md5_finish
    upd = 'VP_ASSERT(n_u<2,"call: two updates"); u_len[n_u]=ilen; if(n_u==0){ u_first=input[0]; if(ilen>0&&ilen<=64&&g_j<ilen) u_g=input[g_j]; } else for(int k=0;k<8;k++) u_msg[k]=input[k]; n_u++; ctx->total[0]=vp_ulong(); ctx->total[1]=vp_ulong(); for(int k=0;k<4;k++) ctx->state[k]=vp_ulong(); if(n_u==2) for(int k=0;k<4;k++) g_st[k]=ctx->state[k];'
    c = replace_body(z, "md5_update", upd)
    h = r'''int main(){ static md5_context C; __CPROVER_havoc_object(&C); unsigned char o[17]; unsigned char q=o[16]; VP_ASSUME(C.total[0]<=0xffffffffu&&C.total[1]<(1ul<<61)); unsigned long N=(C.total[1]<<32)|C.total[0]; g_j=vp_int()&63; u_g=0; md5_finish(&C,o);
  VP_ASSERT(n_u==2&&u_len[0]>=1&&u_len[0]<=64&&((N+u_len[0])&63)==56&&u_len[1]==8,"padding fills the block up to the length field"); VP_ASSERT(u_first==0x80&&(g_j==0||g_j>=u_len[0]||u_g==0),"padding is one bit followed by zeros"); for(int k=0;k<8;k++) VP_ASSERT(u_msg[k]==(unsigned char)((N<<3)>>(8*k)),"the length field is the number of bits, little-endian");
  for(int k=0;k<16;k++) VP_ASSERT(o[k]==(unsigned char)(g_st[k/4]>>(8*(k&3))),"the digest is the state, little-endian"); VP_ASSERT(o[16]==q,"nothing past the digest is written"); VP_REACH("end"); }'''
    run_cbmc(ctx, "md5_finish", PRELUDE + a + g + c + h, "md5_finish", unwind=18)
    # md5 : order of the calls
    st = {"md5_starts": 'VP_ASSERT(ord==0,"call order"); ord=1; u_ctx=ctx;', "md5_update": 'VP_ASSERT(ord==1&&ctx==u_ctx,"call order"); ord=2; u_in[0]=input; u_len[0]=ilen;', "md5_finish": 'VP_ASSERT(ord==2&&ctx==u_ctx,"call order"); ord=3; f_out=output; output[g_j]=u_g;'}
    c = z
    for k, v in st.items():
        c = replace_body(c, k, v)
    h = r'''int main(){ unsigned char i[4],o[17]; int n=vp_int(); g_j=vp_int()&15; u_g=vp_uchar(); md5(i,n,o); VP_ASSERT(ord==3&&u_in[0]==i&&u_len[0]==n&&f_out==o&&o[g_j]==u_g,"the digest of the whole input is returned"); VP_REACH("end"); }'''
    run_cbmc(ctx, "md5", PRELUDE + a + g + c + h, "md5")
    # hmac start: keys
    st = {"md5": 'VP_ASSERT(ilen==u_len[1]&&ilen>64,"call: only keys longer than a block are hashed"); VP_ASSERT(input==u_in[1],"call: the key is hashed"); output[g_j&15]=u_g; n_f++;', "md5_starts": 'n_s++;', "md5_update": 'VP_ASSERT(n_s==1&&ilen==64&&input==ctx->ipad,"call: the inner pad is the first block"); n_u++;'}
    c = z
    for k, v in st.items():
        c = replace_body(c, k, v)
    L = Loop(["i>=0&&i<=64&&(i<=keylen||keylen<0||i==0)", "ctx->ipad[g_j]==(g_j<i?(unsigned char)(0x36^key[g_j]):0x36)", "ctx->opad[g_j]==(g_j<i?(unsigned char)(0x5c^key[g_j]):0x5c)", "keylen<=64&&n_s==0&&n_u==0"], mem={"ctx": "__CPROVER_havoc_slice(ctx->ipad,64); __CPROVER_havoc_slice(ctx->opad,64);"}, name="pads", keep=("ctx",))
    c = cut_loops(c, "md5_hmac_starts", [L])
    h = r'''int main(){ static md5_context C; int n=vp_int(); VP_ASSUME(n>=0&&n<(1<<28)); unsigned char *k=malloc(n+1ul); u_in[1]=k; u_len[1]=n; g_j=vp_int()&63; u_g=vp_uchar(); unsigned char e=n>64?(g_j<16?u_g:0):(g_j<n?k[g_j]:0); md5_hmac_starts(&C,k,n);
  VP_ASSERT(n_s==1&&n_u==1&&n_f==(n>64),"started once"); VP_ASSERT(C.ipad[g_j]==(unsigned char)(e^0x36)&&C.opad[g_j]==(unsigned char)(e^0x5c),"pads are the key, hashed when longer than a block, combined with the constants"); VP_REACH("end"); }'''
    run_cbmc(ctx, "md5_hmac_starts", PRELUDE + "void *malloc(unsigned long);\n" + a + g + c + h, "md5_hmac_starts")
    # hmac finish: order
    st = {"md5_starts": 'VP_ASSERT(ord==1,"call order"); ord=2;', "md5_update": 'if(ord==2){ VP_ASSERT(input==ctx->opad&&ilen==64,"call: outer pad"); ord=3; } else { VP_ASSERT(ord==3&&ilen==16&&input[g_j]==u_g,"call: inner digest"); ord=4; }', "md5_finish": 'VP_ASSERT(ord==0||ord==4,"call order"); if(ord==0){ output[g_j]=u_g; ord=1; } else { f_out=output; ord=5; }'}
    c = z
    for k, v in st.items():
        c = replace_body(c, k, v)
    h = r'''int main(){ static md5_context C; unsigned char o[16]; g_j=vp_int()&15; u_g=vp_uchar(); md5_hmac_finish(&C,o); VP_ASSERT(ord==5&&f_out==o,"outer digest of the outer pad and the inner digest"); VP_REACH("end"); }'''
    run_cbmc(ctx, "md5_hmac_finish", PRELUDE + a + g + c + h, "md5_hmac_finish")
    st = {"md5_hmac_starts": 'VP_ASSERT(ord==0&&key==u_in[1]&&keylen==u_len[1],"call order"); ord=1;', "md5_update": 'VP_ASSERT(ord==1&&input==u_in[2]&&ilen==u_len[2],"call order"); ord=2;', "md5_hmac_finish": 'VP_ASSERT(ord==2,"call order"); ord=3; f_out=output; output[0]=u_g;'}
    c = z
    for k, v in st.items():
        c = replace_body(c, k, v)
    h = r'''int main(){ unsigned char k[2],i[2],o[16]; u_in[1]=k; u_in[2]=i; u_len[1]=vp_int(); u_len[2]=vp_int(); u_g=vp_uchar(); md5_hmac(k,u_len[1],i,u_len[2],o); VP_ASSERT(ord==3&&f_out==o&&o[0]==u_g,"keyed digest of the whole input"); VP_REACH("end"); }'''
    run_cbmc(ctx, "md5_hmac", PRELUDE + a + g + c + h, "md5_hmac md5_hmac_update")


def run(ctx):
    ctx.under_contract("arc4_setup", "arc4_crypt", "md5_starts", "md5_update", "md5_process", "md5_finish", "md5", "md5_hmac_starts", "md5_hmac_update", "md5_hmac_finish", "md5_hmac")
    ctx.assume("key of at least one byte; messages below 2^28 bytes per call; total length below 2^93 bits", "arc4 state indices in 0..255 (established by arc4_setup, preserved by arc4_crypt)", "md5_file and md5_ssh (file reading) are covered by the native oracle only",
               "memcpy copies the bytes it is told to (its bounds are obligations)")
    ctx.trusted += TB_C
    inc = [f"-I{REPO}/include"]
    a = cpp(SRC + "arc4.c")
    m = cpp(SRC + "md5.c")
    ctx.parallel([("native", lambda: native(ctx, "cipher", [lambda: ctx.cobj(SRC + "arc4.c", extra=["-fsanitize=address"]), lambda: ctx.cobj(SRC + "md5.c", extra=["-fsanitize=address"])], link=["-fsanitize=address"], extra=["-fsanitize=address"])),
                  ("crypt", lambda: crypt(ctx, a)), ("setup", lambda: setup(ctx, a)), ("update", lambda: update(ctx, m)), ("process", lambda: process(ctx, m)), ("rest", lambda: rest(ctx, m))])
    return "proof", "the cipher xors byte k with key byte k of the reference generator in lockstep for any length; the digest processes exactly the 64-byte blocks of the concatenated input, each compression step by step as in RFC 1321"
