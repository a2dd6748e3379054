from specs.X01 import *
from specs import fst

NM = r'''
static void vp_mkpage(full_dir_page *p); extern int STDSEQ_opened;
#define LIVE (g_R<g_A->dir.nent)
static int s_k,s_r,g_ok,g_fres,g_fcalled; static uint32_t g_tgt[64],g_msk[64];
static int vp_before(int k,int r){ return g_P<k||(g_P==k&&g_R<r); }   /* the record under study comes before record r of page k */
/* every record from the start of the scan up to the current position, the one found excepted, was rightly passed over */
static int vp_passed(int fnd){ return vp_before(s_k,s_r)||!vp_before(g_k,g_ft.page_record)||!LIVE||(fnd&&g_P==g_k&&g_R==g_ft.page_record-1)||!g_ok; }
static int vp_posok(void){ return g_k>=0&&g_k<g_np&&g_ft.cur_dir_page==vp_page(g_k)&&g_ft.cur_pageno==g_k&&g_ft.page_nrecords==(int)vp_page(g_k)->dir.nent&&g_ft.page_record>=0&&g_ft.page_record<=ENT+1&&g_ft.cur_entry==vp_page(g_k)->dir.entry+(long)g_ft.page_record*2*g_prim; }
static void *vp_filter(int h){ g_fcalled++; if((h&(STDSEQ_opened?0x7F:0x3FF))==g_ix&&(0xFFF&(h>>19))==g_P&&(0x1FF&(h>>10))==g_R) return (void*)(long)g_fres; return (void*)vp_long(); }
static void vp_pos(void){ g_k=vp_int(); g_ft.page_record=vp_int(); g_ft.cur_pageno=vp_int(); g_ft.page_nrecords=vp_int(); VP_ASSUME(g_k>=0&&g_k<g_np); if(g_k!=g_P) vp_mkpage(&g_B0); g_ft.cur_dir_page=vp_page(g_k); VP_ASSUME(g_ft.page_record>=0&&g_ft.page_record<=ENT+1); g_ft.cur_entry=vp_page(g_k)->dir.entry+(long)g_ft.page_record*2*g_prim; }
/* a position inside the same page */
static void vp_pos1(void){ g_ft.page_record=vp_int(); VP_ASSUME(g_ft.page_record>=0&&g_ft.page_record<=ENT+1); g_ft.cur_entry=g_ft.cur_dir_page->dir.entry+(long)g_ft.page_record*2*g_prim; }
static void vp_setok(void){ int m=0; for(int i=0;i<2*PRIM;i++) m|=(g_rec[i]^g_tgt[i])&g_msk[i]; g_fres=vp_int()!=0; g_ok=LIVE&&(g_rec[0]>>24)<127&&m==0&&(g_ft.file_filter?g_fres:1); }
'''


def nextmatch(ctx):
    fn = "next_match"
    t = pin(entries(xdftext(ctx), fn), fn)
    t = t.replace("static full_dir_page *vp_next", "static full_dir_page *vp_next")
    # the keys sought and the selection mask
    s, b, e = find_func(t, fn)
    body = t[b:e + 1]
    body = re.sub(r"\(\s*uint32_t\s*\*\s*\)\s*f\s*->\s*target\b", "g_tgt", body)
    body = re.sub(r"\(\s*uint32_t\s*\*\s*\)\s*f\s*->\s*cur_mask\b", "g_msk", body)
    # the entry is the memory of the record from the start
    body = re.sub(r"\bentry\s*=\s*f\s*->\s*cur_entry\s*;", "entry=vp_ent(f->cur_entry);", body)
    body = re.sub(r"(\(\s*xdf_record_header\s*\*\s*\)\s*)entry\b", r"\1entry", body)
    t = t[:b] + body + t[e + 1:]
    inner = Loop(["vp_posok()", "!found||(f->page_record>0&&f->page_record<=f->page_nrecords)", "!(found&&g_P==g_k&&g_R==f->page_record-1)||g_ok", "vp_passed(found)", "j==f->page_record||found", "g_k>s_k||(g_k==s_k&&f->page_record>=s_r+(found!=0))"], sel=r"file_filter",
                 mem={"f": "vp_pos1();", "entry": "", "*": ""}, keep=("match", "entry", "search", "mask", "stde", "stdm", "stds", "header", "handle", "i"), name="records")
    outer = Loop(["vp_posok()", "!found||(f->page_record>0&&f->page_record<=f->page_nrecords)", "!(found&&g_P==g_k&&g_R==f->page_record-1)||g_ok", "vp_passed(found)", "g_k>s_k||(g_k==s_k&&f->page_record>=s_r+(found!=0))"], sel=r"vp_next", mem={"f": "vp_pos();", "*": ""},
                 keep=("match", "entry", "search", "mask", "stde", "stdm", "stds", "header", "handle", "i", "j"), name="pages")
    t = cut_loops(t, fn, [inner, outer])
    h = HOOK + r'''int main(){ vp_mkfile(PRIM); vp_save(); for(int i=0;i<64;i++){ uint32_t x,y; g_tgt[i]=x; g_msk[i]=y; } if(vp_int()) g_ft.file_filter=vp_filter; vp_pos(); g_ft.page_nrecords=vp_int(); VP_ASSUME(g_ft.cur_pageno==g_k); s_k=g_k; s_r=g_ft.page_record; vp_setok();
 int rc=(int)next_match(g_ix); int after=!vp_before(s_k,s_r)&&g_ok;   /* a record to be found */
 if(rc>=0){ int hp=0xFFF&(rc>>19),hr=0x1FF&(rc>>10); VP_ASSERT((rc&(STDSEQ_opened?0x7F:0x3FF))==g_ix,"the handle is of this file"); VP_ASSERT(hp>s_k||(hp==s_k&&hr>=s_r),"the scan goes forward"); if(hp==g_P&&hr==g_R) VP_ASSERT(g_ok,"the record found is live, equal in every selected bit, and accepted by the filter"); if(vp_before(hp,hr)) VP_ASSERT(!after,"no matching record is passed over"); VP_ASSERT(g_ft.cur_pageno==hp&&g_ft.page_record==hr+1&&g_ft.cur_dir_page==vp_page(hp),"the next scan resumes just after the record found"); VP_ASSERT(g_ft.cur_entry==vp_page(hp)->dir.entry+(long)(hr+1)*2*g_prim,"at its entry"); if(hp==g_P) VP_ASSERT(hr<(int)g_A->dir.nent,"the record found exists"); }
 else { VP_ASSERT(rc==NOTF,"a scan that finds nothing says so"); VP_ASSERT(!after,"nothing is found only when no record matches"); }
 VP_ASSERT(vp_same(0),"the directory is not modified"); VP_REACH("end"); }'''
    run_cbmc(ctx, fn, full(ctx, t, "enum{NOTF=%s};" % const(ctx, "ERR_NOT_FOUND") + h, extra_defs=NM), fn, **B)


STDF = [("lng", 0, 0, 24), ("idtyp", 0, 24, 8), ("addr", 1, 0, 32), ("deet", 2, 8, 24), ("nbits", 2, 0, 8), ("ni", 3, 8, 24), ("gtyp", 3, 0, 8), ("nj", 4, 8, 24), ("datyp", 4, 0, 8), ("nk", 5, 12, 20), ("ubc", 5, 0, 12),
        ("npas", 6, 6, 26), ("ig4", 7, 8, 24), ("ig2a", 7, 0, 8), ("ig1", 8, 8, 24), ("ig2b", 8, 0, 8), ("ig3", 9, 8, 24), ("ig2c", 9, 0, 8), ("etik15", 10, 2, 30), ("etik6a", 11, 2, 30), ("etikbc", 12, 20, 12), ("typvar", 12, 8, 12),
        ("nomvar", 13, 8, 24), ("ip1", 14, 4, 28), ("levtyp", 14, 0, 4), ("ip2", 15, 4, 28), ("ip3", 16, 4, 28), ("date_stamp", 17, 0, 32)]
BURP = [(f"sti{i+1}", 2 + i // 4, 24 - 8 * (i % 4), 8) for i in range(8)] + [("sti9", 4, 24, 8), ("flgs", 4, 0, 24), ("lati", 5, 16, 16), ("lon", 5, 0, 16), ("date", 6, 12, 20), ("dx", 6, 0, 12), ("idtp", 7, 24, 8), ("dy", 7, 12, 12), ("heur", 7, 6, 6), ("min", 7, 0, 6)]


def fld(w, sh, n, arr):
    return f"(({arr}[{w}]>>{sh})&0x{(1 << n) - 1:x}u)"


GENKEYS = r'''
static file_header g_h0; static uint32_t g_bb[2],g_mm[2],g_q[2]; static int g_n,g_K,g_w,g_bt,g_pr,g_bit0,c_i=-1; static uint32_t g_kv; static uint32_t g_f0; static key_descriptor g_kd,c_k;
#define W(k) ((int)(k).bit1/32+(PRIMF?2:0))
#define S(k) (31-(int)((k).bit1%32))
#define N(k) ((int)(k).lcle+1)
#define M(k) (0xffffffffu>>(32-N(k)))
#define COV(k,w,b) (W(k)==(w)&&(b)>=S(k)&&(b)<S(k)+N(k))
/* description of key i: the keys of a file do not overlap, each lies in one word, the words of the others lie between those of the first and the last */
static key_descriptor vp_kd(int i){ if(!PRIMF){ VP_ASSERT(i>=g_pr,"the secondary keys follow the primary ones"); i-=g_pr; } VP_ASSERT(i>=0&&i<g_n,"a key of the file"); if(i==g_K) return g_kd; if(i==c_i) return c_k; key_descriptor k; c_k=k; c_i=i;
  VP_ASSUME(S(k)+N(k)<=32&&(W(k)!=W(g_kd)||S(k)+N(k)<=S(g_kd)||S(g_kd)+N(g_kd)<=S(k))&&!COV(k,g_w,g_bt)); if(PRIMF){ if(i==0) VP_ASSUME(W(k)<=W(g_kd)&&(g_w<2||W(k)<=g_w)); if(i==g_n-1) VP_ASSUME(W(k)>=W(g_kd)&&(g_w<2||W(k)>=g_w)); } return k; }
/* words of the buffer, of the mask and of the list of keys: those under study, any other is arbitrary */
static uint32_t b_k,b_w,b_x,m_k,m_w,m_x,m_0,m_1,q_k,q_x;
static uint32_t *vp_cell(uint32_t*p,int i){ uint32_t x; if(__CPROVER_POINTER_OBJECT(p)==__CPROVER_POINTER_OBJECT(g_q)){ i+=(int)(p-g_q); q_x=x; return i==g_K?&q_k:&q_x; }
  int m=__CPROVER_POINTER_OBJECT(p)==__CPROVER_POINTER_OBJECT(g_mm); VP_ASSERT(m||__CPROVER_POINTER_OBJECT(p)==__CPROVER_POINTER_OBJECT(g_bb),"a word of the buffer or of the mask"); i+=(int)(p-(m?g_mm:g_bb)); VP_ASSERT(i>=0,"inside the record"); if(i==W(g_kd)) return m?&m_k:&b_k; if(i==g_w) return m?&m_w:&b_w; if(m&&i==0) return &m_0; if(m&&i==1) return &m_1; b_x=x; m_x=x; return m?&m_x:&b_x; }
static uint32_t vp_in(uint32_t*a){ return ((a==g_bb?b_k:m_k)>>S(g_kd))&M(g_kd); }
static uint32_t vp_at(int i){ return i==W(g_kd)?m_k:i==g_w?m_w:i==0?m_0:m_1; }
static uint32_t vp_want(void){ uint32_t k=g_kv; if(g_kd.tcle/32>0) k=k&~((k&0x40404040)>>1); return k&M(g_kd); }
#define BIT(a) ((int)(((g_w==W(g_kd)?((a)==g_bb?b_k:m_k):((a)==g_bb?b_w:m_w))>>g_bt)&1))
static void vp_hvb(void){ uint32_t x,y; b_k=x; b_w=y; }
static void vp_hvm(void){ uint32_t x,y,z,t; m_k=x; m_w=y; m_0=z; m_1=t; }
static void vp_hvq(void){ uint32_t x; q_k=x; }
'''


def keys(ctx):
    t = xdftext(ctx)
    # standard files: the keys are copied as they are
    fn = "build_fstd_prim_keys"
    fix = "static file_header g_h; static uint32_t g_b[24],g_b0[24],g_q[24],g_q0[24],g_m[24],g_m0[24],g_v[24];\n"
    ini = "int i; file_header hh; g_h=hh; static file_table_entry fe; fe.header=&g_h; g_ix=vp_int(); VP_ASSUME(g_ix>=0&&g_ix<MAXF); file_table[g_ix]=&fe; for(i=0;i<24;i++){ uint32_t a,b,c,d; g_b0[i]=g_b[i]=a; g_q0[i]=g_q[i]=b; g_m0[i]=g_m[i]=c; g_v[i]=d; }"
    h = fix + "int main(){ " + ini + f""" int n=vp_int(),k=vp_int(); VP_ASSUME(n>=1&&n<=11&&k>=0&&k<24); g_h.lprm=n; int wr=vp_int()!=0; {fn}(g_b,g_q,g_m,g_v,g_ix,wr?WRM:RDM); int in=k<2*(n-1);
 if(wr){{ VP_ASSERT(k+2>=24||g_b[k+2]==(in?g_q0[k]:g_b0[k+2]),"every key word is stored, in its place"); VP_ASSERT(g_b[0]==g_b0[0]&&g_b[1]==g_b0[1],"the record header is kept"); VP_ASSERT(k+2>=24||g_m[k+2]==(in?g_v[k]:g_m0[k+2]),"the mask is the selection given"); VP_ASSERT(g_m[0]==0&&g_m[1]==0,"the record header is not selected"); VP_ASSERT(g_q[k]==g_q0[k],"the keys given are kept"); }}
 else {{ VP_ASSERT(g_q[k]==(in?g_b0[k+2]:g_q0[k]),"every key word is read back"); VP_ASSERT(g_b[k]==g_b0[k],"reading keys changes nothing"); }} VP_REACH("end"); }}"""
    run_cbmc(ctx, fn, full(ctx, t, h), fn, unwind=25)


def layout(ctx):
    # layout of a directory entry of a standard file (the file format)
    t = xdftext(ctx)
    a = "".join(f'VP_ASSERT(s->{f}=={fld(w, sh, n, "w")},"{f} is at its place in the directory entry");' for f, w, sh, n in STDF if f != "idtyp")
    h = f'''int main(){{ uint32_t w[18]; stdf_dir_keys*s=(stdf_dir_keys*)w; {a} VP_ASSERT(sizeof(stdf_dir_keys)==72&&sizeof(burp_dir_keys)==32,"size of the keys"); xdf_record_header*r=(xdf_record_header*)w; VP_ASSERT(r->idtyp==w[0]>>24&&r->lng==(w[0]&0xffffff)&&r->addr==w[1],"header of a record"); file_record*g=(file_record*)w; VP_ASSERT(g->idtyp==w[0]>>24&&g->lng==(w[0]&0xffffff)&&g->addr==w[1],"header of a record in the file"); VP_REACH("end"); }}'''
    run_cbmc(ctx, "entry layout", full(ctx, t, h), "stdf_dir_keys")


def genkeys(ctx, fn, prim):
    t = xdftext(ctx)
    lem = ""
    s, b, e = find_func(t, fn)
    t = t[:b] + re.sub(r"\bfh\s*->\s*keys\s*\[([^\[\]]*)\]", r"vp_kd(\1)", t[b:e + 1]) + t[e + 1:]
    s, b, e = find_func(t, fn)
    t = t[:b] + re.sub(r"\b(buf|mask|keys)\s*\[([^\[\]]*)\]", r"(*vp_cell(\1,\2))", t[b:e + 1]) + t[e + 1:]
    mem = {"vp_cell": "vp_hvb(); vp_hvm();", "*": ""}
    inv = ["i>=0&&i<=g_n", "!(g_K<i)||vp_in(g_bb)==(g_kv==0xffffffffu?g_f0:vp_want())", "!(g_K>=i)||vp_in(g_bb)==g_f0", "BIT(g_bb)==g_bit0"]
    cuts = []
    if prim:
        inv += ["vp_in(g_mm)==(g_K<i&&g_kv!=0xffffffffu?M(g_kd):0)", "BIT(g_mm)==0", "vp_at(0)==0&&vp_at(1)==0"]
        cuts.append(Loop(["i>=wfirst", "!(g_w-2>=wfirst&&g_w-2<i)||BIT(g_mm)==0", "!(W(g_kd)-2>=wfirst&&W(g_kd)-2<i)||m_k==0", "vp_at(0)==0&&vp_at(1)==0"], sel=r"cell\(mask,\s*\w+\s*\)\)\s*=\s*0", mem={"vp_cell": "vp_hvm();", "*": ""}, name="clear"))
    cuts.append(Loop(inv, sel=r"cell\(buf,[^()]*\)\)\s*\|?=[^=]", mem=mem, name="write", lemma=lem))
    cuts.append(Loop(["i>=0&&i<=g_n", "!(g_K<i)||q_k==vp_in(g_bb)"], sel=r"cell\(keys,[^()]*\)\)\s*=[^=]", mem={"vp_cell": "vp_hvq();", "*": ""}, name="read", lemma=lem))
    c = cut_loops(t, fn, cuts)
    call = f"{fn}(g_bb,g_q,{'g_mm,g_mm,' if prim else ''}g_ix,wr?WRM:RDM);"
    h = "int main(){ static file_table_entry fe; file_header hh; g_h0=hh; fe.header=&g_h0; g_ix=vp_int(); VP_ASSUME(g_ix>=0&&g_ix<MAXF); file_table[g_ix]=&fe; vp_hvb(); vp_hvm(); vp_hvq(); key_descriptor kk; g_kd=kk; g_n=vp_int(); g_pr=vp_int(); VP_ASSUME(g_n>=1&&g_n<=512&&g_pr>=0&&g_pr<=512);" + \
        ("g_h0.nprm=g_n;" if prim else "g_h0.naux=g_n; g_h0.nprm=g_pr;") + \
        " g_K=vp_int(); VP_ASSUME(g_K>=0&&g_K<g_n&&S(g_kd)+N(g_kd)<=32); g_w=vp_int(); g_bt=vp_int(); VP_ASSUME(g_w>=0&&g_w<300&&g_bt>=0&&g_bt<32); VP_ASSUME(!COV(g_kd,g_w,g_bt)); if(PRIMF){ if(g_K==0) VP_ASSUME(g_w<2||g_w>=W(g_kd)); if(g_K==g_n-1) VP_ASSUME(g_w<2||g_w<=W(g_kd)); } g_kv=q_k; g_f0=vp_in(g_bb); g_bit0=BIT(g_bb); int wr=vp_int()!=0;" + call + \
        ' if(wr){ VP_ASSERT(vp_in(g_bb)==(g_kv==0xffffffffu?g_f0:vp_want()),"each key given is stored in its place, -1 keeps the old value"); VP_ASSERT(BIT(g_bb)==g_bit0,"no other bit of the buffer changes");' + \
        ('VP_ASSERT(vp_in(g_mm)==(g_kv!=0xffffffffu?M(g_kd):0),"exactly the bits of the keys given are selected"); VP_ASSERT(BIT(g_mm)==0,"no other bit is selected");' if prim else "") + \
        ' } else { VP_ASSERT(q_k==vp_in(g_bb),"each key is read from its place"); VP_ASSERT(BIT(g_bb)==g_bit0,"reading keys changes nothing"); } VP_REACH("end"); }'
    run_cbmc(ctx, fn, full(ctx, c, h, extra_defs=f"#define PRIMF {prim}\n" + GENKEYS), fn, unwind=4)


def burpkeys(ctx):
    t = xdftext(ctx, "burp98.c")
    tabs = "static const int bw[18]={%s},bs[18]={%s},bn[18]={%s};\n" % tuple(",".join(str(x[k]) for x in BURP) for k in (1, 2, 3))
    h = tabs + r"""#define UP(c) ((c)&~(((c)&64)>>1))
int main(){ uint32_t b[64],b0[64],m[64],q[18],q0[18]; for(int i=0;i<64;i++) b0[i]=b[i]; for(int i=0;i<18;i++) q0[i]=q[i]; int wr=vp_int()!=0; build_burp_prim_keys((burp_record*)b,q,(burp_record*)m,0,0,wr?WRM:RDM);
 uint32_t em[8],eb[8]; for(int i=0;i<8;i++){ em[i]=0; eb[i]=b0[i]; } for(int k=0;k<18;k++){ uint32_t f=((1u<<bn[k])-1)<<bs[k]; if(wr){ if(q0[k]!=0xffffffffu){ uint32_t v=k<9?UP(q0[k]):q0[k]; eb[bw[k]]=(eb[bw[k]]&~f)|((v<<bs[k])&f); em[bw[k]]|=f; } VP_ASSERT(q[k]==q0[k],"the keys given are kept"); } else VP_ASSERT(q[k]==((b0[bw[k]]>>bs[k])&((1u<<bn[k])-1)),"each report key is read from its place"); }
 int k=vp_int(); VP_ASSUME(k>=0&&k<64); VP_ASSERT(b[k]==(k<8?eb[k]:b0[k]),"each report key given is stored in its place, -1 keeps the old value, nothing else changes"); if(wr&&k<8) VP_ASSERT(m[k]==em[k],"exactly the bits of the keys given are selected");
 uint32_t d[2],d0[2],s[5],s0[5]; d0[0]=d[0]; d0[1]=d[1]; for(int i=0;i<5;i++) s0[i]=s[i]; build_burp_info_keys(d,s,0,wr?WRM:RDM); static const int iw[5]={0,0,1,1,1},is[5]={16,0,19,8,0},in[5]={16,16,13,11,8}; uint32_t ed[2]={d0[0],d0[1]}; for(int i=0;i<5;i++){ uint32_t f=((1u<<in[i])-1)<<is[i]; if(wr){ if(s0[i]!=0xffffffffu) ed[iw[i]]=(ed[iw[i]]&~f)|((s0[i]<<is[i])&f); } else VP_ASSERT(s[i]==((d0[iw[i]]>>is[i])&((1u<<in[i])-1)),"each secondary report key is read from its place"); }
 VP_ASSERT(d[0]==ed[0]&&d[1]==ed[1],"secondary report keys are stored in their places"); VP_REACH("end"); }"""
    txt = PRELUDE + t + f"\nenum{{RDM={const(ctx,'RDMODE')},WRM={const(ctx,'WMODE')}}};\n" + h
    run_cbmc(ctx, "build_burp_prim_keys", txt, "build_burp_prim_keys build_burp_info_keys", unwind=65)


ADDP = r'''
static int g_n0,g_gi; static full_dir_page *g_new,g_last0,*g_other; static uint32_t g_e,g_ex; static int g_cap,g_bytes,g_wn,g_wok; static unsigned g_wa,g_nx0;
/* slot k of the page table */
static full_dir_page **vp_slot(int k){ VP_ASSERT(k>=0&&k<MAXP,"a slot of the page table"); static full_dir_page*lp; if(k==g_n0) return &g_new; if(k==g_n0-1){ lp=&g_last0; return &lp; } VP_ASSERT(0,"only the new page and its predecessor are concerned"); return &g_other; }
static uint32_t *vp_e(full_dir_page*p,int i){ VP_ASSERT(p==g_new&&i>=0&&(long)((char*)p->dir.entry-(char*)p)+4l*i+4<=g_bytes,"an entry word of the new page"); uint32_t x; g_ex=x; return i==g_gi?&g_e:&g_ex; }
static void vp_mal(int n){ g_bytes=n; }
'''


def addpage(ctx):
    fn = "add_dir_page"
    t = xdftext(ctx)
    s, b, e = find_func(t, fn)
    body = t[b:e + 1]
    body = re.sub(r"\b(\w+)\s*->\s*dir_page\s*\[", r"vp_slot_[", body)
    k = 0
    while "vp_slot_[" in body:
        o = body.index("vp_slot_[") + 8
        c = match(body, o)
        body = body[:o - 8] + "(*vp_slot(" + body[o + 1:c] + "))" + body[c + 1:]
    body = re.sub(r"\bpage\s*->\s*dir\s*\.\s*entry\s*\[([^\[\]]*)\]", r"(*vp_e(page,\1))", body)
    body = re.sub(r"(fte\s*=\s*)file_table\s*\[[^\]]*\]", r"\1vp_ft(file_index)", body)
    body = re.sub(r"\bmalloc\s*\(", "vp_malloc(", body)
    t = t[:b] + body + t[e + 1:]
    t = cut_loops(t, fn, [Loop(["i>=0", "!(g_gi<i&&g_gi<512*g_prim)||g_e==0"], sel=r"vp_e\(", mem={"*": ""}, extra="{uint32_t x; g_e=x;}", name="blank")])
    defs = ADDP + r'''
static file_table_entry *vp_ft(int k){ VP_ASSERT(k==g_ix,"the file given"); return &g_ft; }
static void *vp_malloc(unsigned long n){ static char pg[4096]; g_bytes=(int)n; VP_ASSERT(n>=64&&n<(1ul<<30),"size of a page"); if(vp_int()) return 0; full_dir_page q; *(full_dir_page*)pg=q; return pg; }
'''
    h = r'''
void c_wawrit(int iun,const void*b,const unsigned int a,int n){ g_wn++; g_wa=a; full_dir_page*p=g_new; VP_ASSERT(iun==g_ft.iun&&b==(void*)&p->dir,"the new page is written to the file"); VP_ASSERT(n==2*(ENT*g_prim+4),"the whole page is written"); VP_ASSERT(p->dir.nent==0&&p->dir.idtyp==0&&p->dir.nxt_addr==0&&p->dir.chksum==0&&p->dir.lng==ENT*g_prim+4&&p->dir.addr==(g_nx0-1)/2+1,"the page written is empty"); VP_ASSERT(!(g_gi<512*g_prim)||g_e==0,"every entry of the page written is blank"); }
int main(){ file_table_entry f0; g_ft=f0; g_ft.header=&g_fh; file_header h0; g_fh=h0; g_ix=vp_int(); VP_ASSUME(g_ix>=0&&g_ix<MAXF); g_prim=vp_int(); VP_ASSUME(g_prim>=1&&g_prim<=32); g_ft.primary_len=g_prim; VP_ASSUME(g_ft.npages>=0&&g_ft.npages<=MAXP&&g_ft.nxtadr>=1&&g_ft.nxtadr<(1<<30)&&g_ft.nxtadr%2==1); g_n0=g_ft.npages; g_gi=vp_int(); VP_ASSUME(g_gi>=0&&g_gi<512*32); { full_dir_page q; g_last0=q; } unsigned la=g_last0.dir.nxt_addr,ln=g_last0.dir.nent; void*ln0=g_last0.next_page; int w=vp_int(); g_nx0=g_ft.nxtadr; unsigned nbd=g_fh.nbd,fs=g_fh.fsiz,pl=g_fh.plst;
 int rc=add_dir_page(g_ix,w);
 if(rc==0){ VP_ASSERT(g_n0<MAXP&&g_ft.npages==g_n0+1,"one page is added"); VP_ASSERT(g_new!=0&&g_new->next_page==0&&g_new->true_file_index==g_ix&&g_new->prev_page==(g_n0?&g_last0:(full_dir_page*)0),"the page ends the chain of this file"); if(g_n0) VP_ASSERT(g_last0.next_page==g_new,"its predecessor leads to it"); VP_ASSERT(g_new->dir.nent==0&&g_new->dir.idtyp==0&&g_new->dir.nxt_addr==0&&g_new->dir.chksum==0&&g_new->dir.lng==ENT*g_prim+4&&g_new->dir.addr==(g_nx0-1)/2+1,"the new page is empty"); VP_ASSERT(!(g_gi<512*g_prim)||g_e==0,"every entry of the new page is blank");
  if(w){ VP_ASSERT(g_wn==1&&g_wa==g_nx0,"the page is written at the end of the file"); VP_ASSERT((unsigned)g_ft.nxtadr==g_nx0+2*(ENT*g_prim+4)&&g_fh.fsiz==(unsigned)(g_ft.nxtadr-1)/2,"the file grows by the page"); VP_ASSERT(g_fh.nbd==nbd+1&&g_fh.plst==g_new->dir.addr&&g_new->modified,"the header counts the page"); if(g_n0) VP_ASSERT(g_last0.dir.nxt_addr==g_new->dir.addr,"the previous page of the file leads to it"); }
  else VP_ASSERT(g_wn==0&&(unsigned)g_ft.nxtadr==g_nx0&&g_fh.nbd==nbd&&g_fh.fsiz==fs,"a page being read is not written"); VP_ASSERT(g_last0.dir.nent==ln,"the previous page keeps its records"); }
 else { VP_ASSERT(g_ft.npages==g_n0&&g_wn==0&&(unsigned)g_ft.nxtadr==g_nx0&&g_fh.nbd==nbd&&g_fh.fsiz==fs&&g_last0.next_page==ln0&&g_last0.dir.nxt_addr==la,"a refusal changes nothing"); } if(g_n0>=MAXP) VP_ASSERT(rc<0,"no page past the table"); VP_REACH("end"); }'''
    run_cbmc(ctx, fn, full(ctx, t, h, extra_defs=defs), fn, unwind=4)


def put(ctx):
    fn = "c_xdfput"
    t = xdftext(ctx)
    t = walk(pin(entries(t, fn), fn), fn, "f->cur_dir_page", "page_number", "f")
    t = replace_body(t, "fnom_index", "return 3;")
    t = replace_body(t, "file_index", "g_fi++; return iun==g_ft.iun?g_ix:iun==g_ft2.iun?((g_ix+1)&1023):-1;".replace("-1;", const(ctx, "ERR_NO_FILE") + ";"))
    t = replace_body(t, "add_dir_page", 'VP_ASSERT(file_index==g_ix&&wflag,"a page is added to this file"); VP_ASSERT(vp_page(g_ft.npages-1)->dir.nent>=ENT,"only when the last page is full"); int er=vp_int(); if(er<0) return er; if(g_ft.npages>=MAXP) return -1; g_added=1; g_np++; full_dir_page*p=vp_page(g_ft.npages); if(p==g_B){ full_dir_page q; g_B0=q; } p->dir.nent=0; p->true_file_index=g_ix; g_ft.npages++; g_ft.nxtadr+=2*(ENT*g_prim+4); g_fh.fsiz=(g_ft.nxtadr-1)/2; g_fh.nbd++; return 0;')
    t = replace_body(t, "c_xdfdel", 'g_dels++; VP_ASSERT(handle==g_h,"the record rewritten is the one erased"); if(g_here) g_rec[0]=(g_rec[0]&0xffffff)|(uint32_t)((g_rec[0]>>24|0x7E)<<24); g_fh.neff++; g_fh.nrec--; g_ft.modified=1; return 0;')
    defs = "static int g_fi,g_added,g_dels,g_h,g_here;\nstatic void vp_mkpage(full_dir_page *p);\n"
    h = HOOK.replace(" static int g_here; ", " ") + r'''
static int g_wn,g_wnw; static unsigned g_wa; static buffer_interface*g_buf; static uint32_t g_wk[20],g_wx; static int g_gx;
static void vp_unused(void){} void c_waread(int iun,void*b,unsigned int a,int n){ }
void c_wawrit(int iun,const void*b,const unsigned int a,int n){ g_wn++; g_wa=a; g_wnw=n; VP_ASSERT(iun==g_ft.iun&&b==(void*)g_buf->data,"the record is written to the file"); for(int i=0;i<18;i++) g_wk[i]=g_buf->data[i]; }
#define BW 40
int main(){ vp_mkfile(PRIM); g_prim=PRIM; VP_ASSUME(g_ft.link>=-1&&(g_ft.link==-1||vp_page(g_ft.npages-1)->dir.nent<ENT)); int newp=0; if(g_ft.link==-1&&vp_int()){ g_P=g_np; g_A->true_file_index=g_ix; g_A->dir.nent=0; newp=1; } VP_ASSUME(g_rec[1]>=1&&g_rec[1]<(1u<<30)); vp_save(); VP_ASSUME(g_ft.iun!=g_ft2.iun); g_ft.build_primary=(fn_b_p*)build_fstd_prim_keys; int q0=vp_int(); VP_ASSUME(q0>=0&&q0<(1<<29)); g_ft.nxtadr=2*q0+1; g_fh.fsiz=q0;
 { static buffer_interface bb0; buffer_interface *b=malloc(sizeof(buffer_interface)+4*BW); *b=bb0; b->iun=vp_int(); b->nbits=vp_int(); VP_ASSUME((int)b->nbits>=0&&(int)b->nbits<(1<<30)); for(int i=0;i<BW;i++){ uint32_t x; b->data[i]=x; } g_buf=b; } uint32_t k0[BW]; for(int i=0;i<BW;i++) k0[i]=g_buf->data[i];
 int ro=FGFDT[3].attr.read_only, h=vp_int(); g_h=h<0?-h:h; VP_ASSUME(h>-(1<<30)); g_hp=0xFFF&(g_h>>19); g_hr=0x1FF&(g_h>>10); int hx=g_h&(STDSEQ_opened?0x7F:0x3FF); g_here=h!=0&&hx==g_ix&&g_hp==g_P&&g_hr==g_R; int nent0=g_A->dir.nent,np0=g_ft.npages,last=np0-1,lastn=vp_page(last)->dir.nent; unsigned nx0=g_ft.nxtadr,nrec=g_fh.nrec,nxtn=g_fh.nxtn,nbig=g_fh.nbig,nrwr=g_fh.nrwr; int nw=g_buf->nbits/32; int bi=g_buf->iun; int aP=g_A->modified;
 int rc=c_xdfput(g_ft.iun,h,g_buf);
 int wr=!ro&&g_fh.rwflg!=RDM&&!(h!=0&&g_fh.rwflg==APM); if(!wr) VP_ASSERT(rc<0,"a file that may not be written is refused"); if(bi!=g_ft.iun&&bi!=g_ft2.iun) VP_ASSERT(rc<0,"a buffer of no file is refused"); if(nw%2) VP_ASSERT(rc<0,"a record is a number of 64-bit words"); if(h!=0&&hx!=g_ix) VP_ASSERT(rc<0,"a handle of another file is refused"); int live=g_R<nent0; if(h!=0&&(g_hp>=g_np||(g_here&&!live))) VP_ASSERT(rc<0,"a handle of no record is refused"); if(g_here&&live&&(ID0==0||(ID0&0x7E)==0x7E)) VP_ASSERT(rc<0,"an erased or special record is not rewritten"); if(g_here&&g_hp>=np0) VP_ASSERT(rc<0,"a record of a linked file is not rewritten");
 if(rc<0) { VP_ASSERT(g_wn==0&&vp_same(0)&&g_dels==0&&g_fh.nrec==nrec,"a refused request changes nothing"); if(!newp) VP_ASSERT(g_A->dir.nent==nent0,"a refused request adds no record"); }
 else { int olen=g_rec0[0]&0xffffff, app; if(g_here) app=(h<=0||2*olen!=nw); else app=(h<=0)||g_ft.nxtadr!=(int)nx0||g_fh.nxtn!=nxtn; int full=lastn>=ENT; int dp=app?(full?np0:last):g_hp, dr=app?(full?0:lastn):g_hr; int here=g_P==dp&&g_R==dr;
  VP_ASSERT(rc==0&&g_wn==1&&g_wnw==nw,"the record is written, once, whole"); unsigned wa=g_wa; if(app) VP_ASSERT(wa==(unsigned)(nx0+(full?2*(ENT*g_prim+4):0)),"a new record goes to the end of the file"); else if(g_here) VP_ASSERT(wa==2*(g_rec0[1]-1)+1,"a record of the same length is rewritten in place");
  if(h==0) VP_ASSERT(app==1&&g_dels==0,"no handle, a new record"); else VP_ASSERT(g_dels==1,"the old record is erased"); VP_ASSERT(g_added==(app&&full),"a page is added when the last one is full");
  VP_ASSERT(g_wk[0]==((k0[0]&0xff000000u)|((uint32_t)(nw/2)&0xffffff))&&(!(app||g_here)||g_wk[1]==(wa-1)/2+1),"the header written gives the length and address of the record"); int k=vp_int(); VP_ASSUME(k>=2&&k<18); VP_ASSERT(g_wk[k]==k0[k]&&g_buf->data[k]==k0[k],"the keys written are those of the buffer");
  if(here){ VP_ASSERT(g_rec[k]==k0[k],"the directory entry holds the keys of the record"); VP_ASSERT(g_rec[0]==g_wk[0]&&g_rec[1]==g_wk[1],"its type, length and address"); VP_ASSERT(g_R<g_A->dir.nent,"the entry is counted in its page"); VP_ASSERT(g_A->modified,"the directory page will be written back"); int z=vp_int(); VP_ASSUME(z>=18&&z<64); VP_ASSERT(g_rec[z]==g_rec0[z],"nothing past the keys"); }
  else if(g_here){ VP_ASSERT(((g_rec[0]>>24)&0x7E)==0x7E&&vp_same(1),"the old record is marked erased, its keys kept"); }
  else VP_ASSERT(vp_same(0),"no other record is modified");
  if(!(newp&&!g_added)) VP_ASSERT((int)g_A->dir.nent==nent0+(app&&g_P==dp),"one record more, in the last page only");
  VP_ASSERT(g_fh.nrec==nrec+(h==0)&&g_fh.nxtn==nxtn+app&&g_fh.nrwr==nrwr+(h!=0),"the counts of the file"); VP_ASSERT((unsigned)g_ft.nxtadr==nx0+(g_added?2*(ENT*g_prim+4):0)+(app?nw:0)&&(unsigned)g_ft.nxtadr==2*g_fh.fsiz+1,"the end of the file follows the last record"); VP_ASSERT(g_fh.nbig==(app&&(unsigned)nw/2>nbig?(unsigned)nw/2:nbig),"size of the biggest record"); VP_ASSERT(g_ft.modified,"the file will be updated"); }
 VP_REACH("end"); }'''
    run_cbmc(ctx, fn, full(ctx, t, "enum{APM=%s};" % const(ctx, "APPEND") + h, extra_defs=defs), fn, **B)


def run(ctx):
    ctx.trusted += TB_C
    ctx.under_contract("next_match", "build_fstd_prim_keys", "build_gen_prim_keys", "build_gen_info_keys", "build_burp_prim_keys", "read_burp_prim_keys", "write_burp_prim_keys", "build_burp_info_keys", "add_dir_page", "c_xdfput",
                       "c_fstecr (directory keys)", "c_fstinfx", "c_fstinf", "c_fstsui", "c_fstinl", "c_fstprm", "crack_std_parms")
    ctx.parallel([("put", lambda: put(ctx)), ("ecr", lambda: fst.run_wkeys(ctx)), ("infx", lambda: fst.search(ctx, 0)), ("inf", lambda: fst.search(ctx, 1)),
                  ("native", lambda: native(ctx, "fsthist", [lambda: fststack(ctx)], lang="f", extra=["-I" + REPO + "/src/fstd98"])),
                  ("prm", lambda: fst.prm(ctx)), ("inl", lambda: fst.listing(ctx)), ("next", lambda: nextmatch(ctx)), ("keys", lambda: keys(ctx)), ("layout", lambda: layout(ctx)),
                  ("genprim", lambda: genkeys(ctx, "build_gen_prim_keys", 1)), ("geninfo", lambda: genkeys(ctx, "build_gen_info_keys", 0)), ("burpkeys", lambda: burpkeys(ctx)), ("addpage", lambda: addpage(ctx))])
    ctx.assume("directory pages form a chain in page order, none after the last (established by add_dir_page and c_xdflnk; exercised by the native histories)")
    ctx.assume("random-access files; the scan of sequential files is decided by the native oracle only")
    ctx.assume("a linked file whose last directory page is full is not written (add_dir_page does not relink)")
    ctx.assume("texts of descriptors hold ASCII characters up to z; buffer sizes of a record do not overflow an int")
    ctx.assume("packers, incdatr, the user's filter and ip_is_equal return arbitrary values in the contracts of the callers")
    return "proof", "every directory of up to the maximum number of pages, every record, key description, mask and descriptor value"
