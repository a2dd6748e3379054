from specs.xdf import *

HOOK = r'''
static int g_bp,g_bpm,g_hp,g_hr; static uint32_t *g_bpbuf; static int g_here;   /* g_here: the handle names the distinguished record */
static uint32_t *vp_bp(uint32_t*buf,uint32_t*keys,uint32_t*mask,uint32_t*mk,int index,int mode){ VP_ASSERT(index==g_ix,"the keys are those of the file of the handle"); g_bp++; g_bpm=mode; g_bpbuf=buf; return 0; }
static int vp_handle(void){ int h=vp_int(); VP_ASSUME(h>0); g_hp=0xFFF&(h>>19); g_hr=0x1FF&(h>>10); int x=h&(STDSEQ_opened?0x7F:0x3FF); VP_ASSUME(x==g_ix); g_here=(g_hp==g_P&&g_hr==g_R); return h; }
#define LIVE (g_R<g_A->dir.nent)
#define ID0 (g_rec0[0]>>24)
static uint32_t g_rec0[64]; static void vp_save(void){ for(int i=0;i<64;i++) g_rec0[i]=g_rec[i]; }
static int vp_same(int from){ int r=1; for(int i=from;i<64;i++) r&=(g_rec[i]==g_rec0[i]); return r; }
'''
B = dict(unwind=65)


def macros(ctx):
    p = ctx.write("hmac.c", '#include <stdint.h>\n#include <rmn/fnom.h>\nstatic int STDSEQ_opened;\n#include "qstdir.h"\nint mk_rnd(int p,int r,int f){ return MAKE_RND_HANDLE(p,r,f); } int mk_seq(int c,int a,int f){ return MAKE_SEQ_HANDLE(c,a,f); } int hi(int h){ return INDEX_FROM_HANDLE(h); } int hr(int h){ return RECORD_FROM_HANDLE(h); } int hp(int h){ return PAGENO_FROM_HANDLE(h); } int hc(int h){ return CLUSTER_FROM_HANDLE(h); } int ha(int h){ return ADDRESS_FROM_HNDL(h); } enum { MXF=MAX_XDF_FILES, EPP=ENTRIES_PER_PAGE, MDP=MAX_DIR_PAGES };\n')
    t = cpp(p, incs=[REPO + "/src/fstd98"])
    t = t.replace("extern int STDSEQ_opened;", "")
    h = r'''int main(){ int p=vp_int(),r=vp_int(),f=vp_int(),p2=vp_int(),r2=vp_int(),f2=vp_int(); VP_ASSUME(p>=0&&p<4096&&r>=0&&r<EPP&&f>=0&&f<MXF&&p2>=0&&p2<4096&&r2>=0&&r2<EPP&&f2>=0&&f2<MXF); VP_ASSERT(MDP<=4096,"every directory page of a file has a number of its own");
  int h=mk_rnd(p,r,f),h2=mk_rnd(p2,r2,f2); VP_ASSERT(h>=0&&(h>0||f==0),"a handle is positive"); VP_ASSERT(hi(h)==f&&hr(h)==r&&hp(h)==p,"file, page and record are recovered from the handle"); VP_ASSERT(h!=h2||(p==p2&&r==r2&&f==f2),"distinct records have distinct handles");
  int c=vp_int(),a=vp_int(),s=vp_int(); VP_ASSUME(c>=0&&c<4&&a>=0&&a<(1<<22)&&s>=0&&s<128); STDSEQ_opened=1; h=mk_seq(c,a,s); VP_ASSERT(h>=0&&hi(h)==s&&hc(h)==c&&ha(h)==a,"sequential: file, cluster and address are recovered from the handle"); VP_REACH("end"); }'''
    run_cbmc(ctx, "handle coding", PRELUDE + t + h, "MAKE_RND_HANDLE MAKE_SEQ_HANDLE")


def seqaddr(ctx):
    t = xdftext(ctx)
    h = r'''int main(){ g_ft.fstd_vintage_89=vp_int(); VP_ASSUME(g_ft.fstd_vintage_89==0||g_ft.fstd_vintage_89==1); STDSEQ_opened=1; int q=vp_int(),f=vp_int(); VP_ASSUME(f>=0&&f<128&&q>=0&&q<(1<<28)); /* q: 64-bit word address; on the grid of its cluster (1989 files: multiple of 15, 22 bits) */
  int unit=g_ft.fstd_vintage_89?15:q>=0x4000000?64:q>=0x1000000?16:q>=0x400000?4:1; VP_ASSUME(q%unit==0); if(g_ft.fstd_vintage_89) VP_ASSUME(q/15<(1<<22)); int adr=2*q+1; int h=make_seq_handle(adr,f,&g_ft);
  VP_ASSERT(h>=0,"a sequential handle is not negative"); VP_ASSERT(INDEXF(h)==f,"the file is recovered"); VP_ASSERT(address_from_handle(h,&g_ft)==adr,"the handle of a record gives back its address"); VP_REACH("end"); }
'''
    run_cbmc(ctx, "sequential handles", full(ctx, t, "static int INDEXF(int h){ return h&127; }\n" + h), "make_seq_handle address_from_handle")
    # addresses of appended records stay on the grid: the alignment of c_xdfput matches the coding
    s, b, e = find_func(t, "c_xdfput")
    body = t[b:e + 1]
    m = re.search(r"next_cluster_addr\s*=\s*f->cur_addr", body)
    if not m:
        raise ToolError("cluster computation of c_xdfput not found")
    en = body.index("bufrec->lng", m.start())
    while body[en - 1] not in "}":
        en -= 1
    frag = body[m.start():en - 1]
    h = r'''static int vp_grid(int q){ int u=q>=0x4000000?64:q>=0x1000000?16:q>=0x400000?4:1; return q%u==0; }
int main(){ file_table_entry *f=&g_ft; int nwords=vp_int(),next_cluster_addr,cluster_size; int q=vp_int(); VP_ASSUME(q>=0&&q<(1<<27)&&vp_grid(q)&&nwords>=0&&nwords<(1<<25)&&nwords%2==0); f->cur_addr=2*q+1; int nw0=nwords;
 FRAG
 VP_ASSERT(nwords>=nw0&&nwords<nw0+128&&nwords%2==0,"a record is extended by less than a cluster"); int nxt=f->cur_addr+nwords+4; VP_ASSERT((nxt-1)%2==0&&vp_grid((nxt-1)/2),"the next record starts where a handle can name it"); VP_REACH("end"); }'''.replace("FRAG", frag)
    run_cbmc(ctx, "sequential grid", full(ctx, t, h), "c_xdfput (cluster alignment)")


def prm(ctx):
    t = walk(entries(xdftext(ctx), "c_xdfprm"), "c_xdfprm", "target_page", "page_number", "fte")
    h = HOOK + r'''int main(){ vp_mkfile(PRIM); vp_save(); g_ft.build_primary=vp_bp; int h=vp_handle(); int a,l,id; uint32_t k[32]; int rc=c_xdfprm(h,&a,&l,&id,k,16);
 if(g_here&&LIVE){ VP_ASSERT(rc==0,"a handle of a record is accepted"); VP_ASSERT(a==g_rec0[1]&&l==(g_rec0[0]&0xffffff)&&id==ID0,"address, length and type are those of the record of that page and number"); VP_ASSERT(g_bp==1&&g_bpm==RDM&&g_bpbuf==g_rec,"the keys are read from that record"); }
 if(g_hp>=g_np||(g_here&&!LIVE)) VP_ASSERT(rc<0&&g_bp==0,"a handle of no record is refused"); VP_ASSERT(vp_same(0),"the directory is not modified"); VP_REACH("end"); }'''
    run_cbmc(ctx, "c_xdfprm", full(ctx, t, h), "c_xdfprm", **B)


def get2(ctx):
    t = walk(entries(xdftext(ctx), "c_xdfget2"), "c_xdfget2", "target_page", "page_number", "f")
    t = cut_loops(t, "c_xdfget2", [Loop(["i>=0"], sel=r"buf->data\[i\]", mem={"buf": ""}, name="clear", ghost_in='VP_ASSERT(i<lngw,"the buffer is cleared over the record only");')])
    hook = HOOK + r'''static int g_rd,g_rn,g_ru,g_ra,g_aux,g_auxa,g_auxn,g_ret; static void *g_rbuf;
int c_waread2(int iun,void*b,unsigned int a,int n){ g_rd++; g_ru=iun; g_rbuf=b; g_ra=a; g_rn=n; g_ret=vp_int(); return g_ret; } void c_waread(int iun,void*b,unsigned int a,int n){ g_aux++; g_auxa=a; g_auxn=n; }
'''
    h = hook + r'''int main(){ vp_mkfile(PRIM); vp_save(); int h=vp_handle(); int nw=vp_int(); VP_ASSUME(nw>-(1<<27)&&nw<(1<<27)); buffer_interface *b=malloc(256); b->nwords=nw; b->nbits=vp_uint(); unsigned nb0=b->nbits; int aux[64]; int rc=c_xdfget2(h,b,vp_int()?&aux[0]:(int*)0); int lng=g_rec0[0]&0xffffff; file_table_entry*own=g_P<g_ft.npages?&g_ft:&g_ft2; int off=nw<0&&!own->fstd_vintage_89?2*(own->primary_len+own->info_len):0; int cap=(nw<0?-nw:nw)-(int)((char*)b->data-(char*)b)/4;
 if(g_here&&LIVE&&rc==0){ VP_ASSERT(ID0!=0&&(ID0&0x7E)!=0x7E,"an erased or special record is not given"); VP_ASSERT(g_rd==1&&g_ru==own->iun&&(unsigned)g_ra==2*(g_rec0[1]-1)+1+off,"the record is read from its own file at its own address"); VP_ASSERT(g_rn==2*lng-off&&g_ret==g_rn,"the whole record is read"); VP_ASSERT(g_rbuf==(void*)b->data&&2*lng<=cap,"the record fits in the buffer"); VP_ASSERT(b->nbits==64u*lng&&b->iun==own->iun&&b->record_index==0&&b->data_index==2*(own->primary_len+own->info_len),"the buffer describes the record"); }
 if(g_here&&LIVE&&ID0!=0&&(ID0&0x7E)!=0x7E&&2*lng<=cap&&(nw>=0||nb0==-1)&&!(rc!=0&&g_rd==1&&g_ret!=g_rn)) VP_ASSERT(rc==0,"a record that fits is given");
 if(g_hp>=g_np||(g_here&&!LIVE)) VP_ASSERT(rc<0&&g_rd==0,"a handle of no record is refused"); VP_ASSERT(vp_same(0),"the directory is not modified"); VP_REACH("end"); }'''
    run_cbmc(ctx, "c_xdfget2", full(ctx, t, h), "c_xdfget2", **B)


def dele(ctx):
    t = walk(entries(xdftext(ctx), "c_xdfdel"), "c_xdfdel", "target_page", "page_number", "f")
    h = HOOK + r'''void c_waread(int iun,void*b,unsigned int a,int n){} void c_wawrit(int iun,const void*b,const unsigned int a,int n){}
int main(){ vp_mkfile(PRIM); vp_save(); file_header hh; g_fh2=hh; general_file_info i2; g_ft2.cur_info=&i2; int h=vp_handle(); int neff=g_fh.neff,nrec=g_fh.nrec,neff2=g_fh2.neff,nrec2=g_fh2.nrec,m0=g_A->modified,fm=g_ft.modified; file_table_entry*own=g_P<g_ft.npages?&g_ft:&g_ft2; file_table_entry*oth=own==&g_ft?&g_ft2:&g_ft; int om=oth->modified; int rc=c_xdfdel(h);
 int wr=g_fh.rwflg!=RDM&&g_fh.rwflg!=APM&&!g_info.attr.read_only; if(own==&g_ft2) wr=wr&&g_fh2.rwflg!=RDM&&g_fh2.rwflg!=APM&&!i2.attr.read_only; int could=g_here&&LIVE&&wr&&ID0!=0&&(ID0&0x7E)!=0x7E;
 if(g_here&&LIVE) VP_ASSERT((rc==0)==could,"exactly the live records of writable files can be erased");
 if(could){ VP_ASSERT((g_rec[0]>>24&0x7E)==0x7E&&((g_rec[0]^g_rec0[0])&0xffffff)==0&&vp_same(1),"erasing marks the record of the handle and changes nothing else of it"); VP_ASSERT(g_A->modified,"its directory page will be written back"); VP_ASSERT(own->modified&&own->header->neff==(own==&g_ft?neff:neff2)+1&&own->header->nrec==(own==&g_ft?nrec:nrec2)-1,"its file counts one record less"); VP_ASSERT(oth->modified==om&&oth->header->neff==(own==&g_ft?neff2:neff),"no other file is concerned"); }
 if(!could) VP_ASSERT(vp_same(0),"no other record is modified"); if(rc<0) VP_ASSERT(g_fh.neff==neff&&g_fh.nrec==nrec,"a refused erasure counts nothing");
 if(g_hp>=g_np||(g_here&&!LIVE)) VP_ASSERT(rc<0,"a handle of no record is refused"); VP_REACH("end"); }'''
    run_cbmc(ctx, "c_xdfdel", full(ctx, t, "enum{APM=%s};" % const(ctx, "APPEND") + h), "c_xdfdel", **B)


def loc2(ctx):
    t = walk(pin(entries(xdftext(ctx), "c_xdfloc2"), "c_xdfloc2"), "c_xdfloc2", "f->cur_dir_page", "pageno", "f", extra="f->cur_pageno=g_k;")
    t = replace_body(t, "file_index", "VP_ASSERT(iun==g_ft.iun,\"the file of the unit\"); return g_ix;")
    t = replace_body(t, "next_match", 'g_nm++; g_nmp=g_ft.cur_pageno; g_nmr=g_ft.page_record; g_nme=g_ft.cur_entry; g_nmd=g_ft.cur_dir_page; return g_nmres;')
    h = HOOK + r'''void c_waread(int iun,void*b,unsigned int a,int n){}
int main(){ vp_mkfile(PRIM); vp_save(); g_ft.build_primary=vp_bp; g_nmres=vp_int(); int mode=vp_int(),h; if(mode==0) h=0; else if(mode==1) h=-1; else h=vp_handle(); if(h<=0){ g_hp=0; g_hr=-1; } int np=vp_int(); VP_ASSUME(np==0||np==16); uint32_t pk[16],mk[16]; int vt=g_ft.valid_target,pr0=g_ft.page_record,pn0=g_ft.cur_pageno; uint32_t*e0=g_ft.cur_entry; full_dir_page*d0=g_ft.cur_dir_page;
 int rc=c_xdfloc2(g_ft.iun,h,pk,np,mk);
 if(g_nm){ VP_ASSERT(np==16||vt,"a search has a target"); VP_ASSERT(rc==g_nmres,"the result is that of the scan"); if(h!=-1){ VP_ASSERT(g_nmp==g_hp&&g_nmr==g_hr+1,"the scan starts after the record of the handle, or at the first record"); VP_ASSERT(g_nmd!=0&&g_nmd==vp_page(g_hp),"in the directory page of the handle"); VP_ASSERT(g_nme==g_nmd->dir.entry+(long)g_nmr*2*g_prim,"at the entry of that record"); } else { VP_ASSERT(g_nmp==pn0&&g_nmr==pr0&&g_nme==e0&&g_nmd==d0,"the scan resumes where the last one stopped"); } VP_ASSERT(g_bp==(np!=0),"a new selection replaces the target, no selection keeps it"); }
 else VP_ASSERT(rc<0,"no scan, no record"); if(h!=-1&&g_hp>=g_np) VP_ASSERT(rc<0&&!g_nm,"a handle of no page is refused"); if(h!=-1&&g_hp<g_np&&(np||vt)) VP_ASSERT(g_nm==1,"a valid request is served"); VP_REACH("end"); }'''
    run_cbmc(ctx, "c_xdfloc2", full(ctx, t, h, extra_defs="static int g_nm,g_nmp,g_nmr,g_nmres; static uint32_t*g_nme; static full_dir_page*g_nmd;\n"), "c_xdfloc2", **B)


def edit(ctx):
    t = xdftext(ctx, "fstd98.c")
    fn = "c_fst_edit_dir_plus"
    for f in ("crack_std_parms", "print_std_parms"):
        t = replace_body(t, f, "")
    s, b, e = find_func(t, fn)
    body = re.sub(r"(\(\s*stdf_dir_keys\s*\*\s*\)\s*)entry\b", r"\1vp_ent(entry)", t[b:e + 1])
    t = t[:b] + body + t[e + 1:]
    t = entries(t, fn)
    hook = HOOK.replace("int index,int mode){ VP_ASSERT(index==g_ix", "int index,int mode){ VP_ASSERT(index==g_ix")
    h = hook + r"""
int sprintf(char*s,const char*f,...){ return 0; }
#define A6(c) ((((c)>='a'&&(c)<='z'?(c)-32:(c))-32)&0x3f)
/* c characters of a text given as s, blanks past its end */
static int vp_chr(const char*s,int k){ for(int i=0;i<=k;i++) if(s[i]==0) return ' '; return s[k]; }
static int vp_code(int have,const char*s,int from,int n){ int v=0; for(int i=0;i<n;i++) v=v<<6|A6(vp_chr(s,from+i)); return v; }
static char g_t[20],g_n[20],g_e[20],g_g[20];
static int vp_blank(const char*s,int n){ for(int i=0;i<n;i++) if(vp_chr(s,i)!=' ') return 0; return 1; }
static void vp_txt(char*s){ for(int i=0;i<20;i++) { s[i]=(char)vp_uchar(); VP_ASSUME(s[i]>=0&&s[i]<127&&s[i]<='z'&&s[i]!=96); } s[19]=0; }
int main(){ vp_mkfile(PRIM); vp_save(); int h=vp_handle(); vp_txt(g_t); vp_txt(g_n); vp_txt(g_e); vp_txt(g_g); int de=vp_int(),np=vp_int(),i1=vp_int(),i2=vp_int(),i3=vp_int(),g1=vp_int(),g2=vp_int(),g3=vp_int(),g4=vp_int(); unsigned d=vp_uint(); int m0=g_A->modified; stdf_dir_keys o=*(stdf_dir_keys*)g_rec0;
 int rc=c_fst_edit_dir_plus(h,d,de,np,vp_int(),vp_int(),vp_int(),i1,i2,i3,g_t,g_n,g_e,g_g,g1,g2,g3,g4,vp_int()); stdf_dir_keys*q=(stdf_dir_keys*)g_rec;
 int could=g_info.attr.std&&g_fh.rwflg!=RDM&&!g_info.attr.read_only&&g_hp<g_ft.npages; if(g_here&&LIVE) VP_ASSERT((rc==0)==could,"exactly the records of the writable file itself are edited"); if(g_hp>=g_ft.npages||(g_here&&!LIVE)) VP_ASSERT(rc<0,"a handle of no record is refused");
 if(!(g_here&&LIVE&&could)) VP_ASSERT(vp_same(0),"no other record is modified"); else { VP_ASSERT(g_A->modified&&g_ft.modified,"the directory page will be written back");
 VP_ASSERT(q->ip1==(i1!=-1?i1&0xfffffff:o.ip1)&&q->ip2==(i2!=-1?i2&0xfffffff:o.ip2)&&q->ip3==(i3!=-1?i3&0xfffffff:o.ip3),"ip1, ip2 and ip3 as given, -1 keeps the old value"); VP_ASSERT(q->deet==(de!=-1?de&0xffffff:o.deet)&&q->npas==(np!=-1?np&0x3ffffff:o.npas),"deet and npas as given");
 VP_ASSERT(q->ig1==(g1!=-1?g1&0xffffff:o.ig1)&&q->ig3==(g3!=-1?g3&0xffffff:o.ig3)&&q->ig4==(g4!=-1?g4&0xffffff:o.ig4)&&(q->ig2a<<16|q->ig2b<<8|q->ig2c)==(g2!=-1?g2&0xffffff:(o.ig2a<<16|o.ig2b<<8|o.ig2c)),"ig1 to ig4 as given");
 VP_ASSERT(q->gtyp==(g_g[0]!=' '&&g_g[0]!=0?g_g[0]:o.gtyp),"grid type as given"); VP_ASSERT(q->typvar==(vp_blank(g_t,2)?o.typvar:vp_code(0,g_t,0,2)),"type of variable as given, blank keeps it"); VP_ASSERT(q->nomvar==(vp_blank(g_n,4)?o.nomvar:vp_code(0,g_n,0,4)),"name as given, blank keeps it");
 VP_ASSERT(vp_blank(g_e,12)?q->etik15==o.etik15&&q->etik6a==o.etik6a&&q->etikbc==o.etikbc:q->etik15==vp_code(0,g_e,0,5)&&q->etik6a==vp_code(0,g_e,5,5)&&q->etikbc==vp_code(0,g_e,10,2),"label as given, blank keeps it"); VP_ASSERT(q->date_stamp==(d!=-1u?8*(d/10)+d%10:o.date_stamp),"date of validity as given");
 VP_ASSERT(q->lng==o.lng&&q->addr==o.addr&&q->deleted==o.deleted&&q->select==o.select&&q->ni==o.ni&&q->nj==o.nj&&q->nk==o.nk&&q->nbits==o.nbits&&q->datyp==o.datyp&&q->ubc==o.ubc,"size, place and data type are kept"); } VP_REACH("end"); }"""
    t = full(ctx, t, h)
    run_cbmc(ctx, fn, t, fn, **B)


def run(ctx):
    ctx.under_contract("MAKE_RND_HANDLE", "MAKE_SEQ_HANDLE", "make_seq_handle", "address_from_handle", "c_xdfput (cluster alignment)", "c_xdfprm", "c_xdfget2", "c_xdfdel", "c_xdfloc2", "c_fst_edit_dir_plus")
    ctx.trusted += TB_C
    ctx.parallel([("macros", lambda: macros(ctx)), ("seqaddr", lambda: seqaddr(ctx)), ("prm", lambda: prm(ctx)), ("get2", lambda: get2(ctx)), ("del", lambda: dele(ctx)), ("loc2", lambda: loc2(ctx)), ("edit", lambda: edit(ctx)),
                  ("native", lambda: native(ctx, "fsthist", [lambda: fststack(ctx)], lang="f", extra=["-I" + REPO + "/src/fstd98"]))])
    ctx.assume("directory pages form a chain in page order, none after the last (established by add_dir_page and c_xdflnk; exercised by the native histories)")
    ctx.assume("random-access files; record keys of 9 64-bit words (standard files) for the contracts that read keys")
    return "proof", "every directory of up to the maximum number of pages, every page, record, handle and file slot"
