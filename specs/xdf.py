"""Shared ghost model of an open XDF file. Directory pages 0..g_np-1 (local, then linked): one distinguished page g_P (object g_A), any other page is g_B.
Of page g_P one distinguished record g_R (object g_rec); any other record is g_oth, of arbitrary content. All numbers are arbitrary, so what is shown of (g_P,g_R) holds of every record."""
from specs.common import *

GH = r'''
static full_dir_page g_A0,g_B0; static full_dir_page *const g_A=&g_A0,*const g_B=&g_B0; static int g_np,g_P,g_R,g_k,g_ix,g_prim; static file_table_entry g_ft; static file_header g_fh; static general_file_info g_info;
static file_table_entry g_ft2; static file_header g_fh2; static uint32_t g_rec[64],g_oth[64];
static full_dir_page *vp_page(int k){ return k<0||k>=g_np ? (full_dir_page*)0 : k==g_P ? g_A : g_B; }
/* the page table of the file */
static full_dir_page *vp_dp(file_table_entry *f,int k){ __CPROVER_assert(f==&g_ft&&k>=0&&k<g_ft.npages,"a page of the file's own table"); return vp_page(k); }
/* directory pages form a chain: the page after page k is page k+1, none after the last (established by add_dir_page and c_xdflnk) */
static full_dir_page *vp_next(full_dir_page *p){ __CPROVER_assert(p!=0&&p==vp_page(g_k),"the chain is walked from the current page"); g_k++; return vp_page(g_k); }
/* the memory of a directory entry */
static uint32_t *vp_ent(uint32_t *p){ if(p==g_A->dir.entry+(long)g_R*2*g_prim) return g_rec; if(p==g_rec) return g_rec; for(int i=0;i<64;i++){ uint32_t x; g_oth[i]=x; } return g_oth; }
'''
MK = r'''
static void vp_mkpage(full_dir_page *p){ full_dir_page q; *p=q; VP_ASSUME(p->dir.nent<=ENT); VP_ASSUME(p->true_file_index==g_ix||p->true_file_index==((g_ix+1)&1023)); }
/* any open random file: at least one page, at most the table's number; linked pages belong to another open file */
static void vp_mkfile(int prim){ g_prim=prim; STDSEQ_opened=vp_int()!=0; g_ix=vp_int(); VP_ASSUME(g_ix>=0&&g_ix<(STDSEQ_opened?127:MAXF)); vp_mkpage(g_A); vp_mkpage(g_B); g_R=vp_int(); VP_ASSUME(g_R>=0&&g_R<512);
  file_table_entry f0; g_ft=f0; file_header h0; g_fh=h0; general_file_info i0; g_info=i0; g_ft.header=&g_fh; g_ft.cur_info=&g_info; g_ft.primary_len=prim; g_ft.info_len=vp_int(); VP_ASSUME(g_ft.info_len>=0&&g_ft.info_len<=8); g_fh.lprm=prim; g_ft.file_index=g_ix; VP_ASSUME(g_ft.iun>=0); g_ft.xdf_seq=0; VP_ASSUME(g_ft.fstd_vintage_89==0||g_ft.fstd_vintage_89==1); g_ft.file_filter=0;
  VP_ASSUME(g_ft.npages>=1&&g_ft.npages<=MAXP); g_np=vp_int(); VP_ASSUME(g_np>=g_ft.npages&&g_np<=4096&&(g_ft.link==-1?g_np==g_ft.npages:1)); VP_ASSUME(g_ft.link>=-1&&g_ft.link<MAXF); g_P=vp_int(); VP_ASSUME(g_P>=0&&g_P<g_np); VP_ASSUME((g_P<g_ft.npages)==(g_A->true_file_index==g_ix));
  g_k=g_ft.npages-1; for(int i=0;i<64;i++){ uint32_t x; g_rec[i]=x; }
  file_table_entry e0; g_ft2=e0; g_ft2.iun=vp_int(); VP_ASSUME(g_ft2.iun>=0); g_ft2.primary_len=prim; g_ft2.info_len=g_ft.info_len; g_ft2.header=&g_fh2; g_ft2.fstd_vintage_89=g_ft.fstd_vintage_89; g_ft2.xdf_seq=0;
  file_table[g_ix]=&g_ft; file_table[(g_ix+1)&1023]=&g_ft2; }
'''


def const(ctx, name):
    """value of a macro of qstdir.h"""
    def go():
        p = ctx.write("kc_%s.c" % name, f'#include <stdint.h>\n#include <rmn/fnom.h>\n#include "qstdir.h"\nVPK {name}\n')
        return cpp(p, incs=[REPO + "/src/fstd98"]).split("VPK")[-1].strip()
    return ctx._once("kc" + name, go)


def xdftext(ctx, file="xdf98.c"):
    return ctx._once("xdftext" + file, lambda: cpp(REPO + "/src/fstd98/" + file, incs=[REPO + "/src/fstd98"]))


def entries(t, fn):
    """directory entries of fn are read and written through vp_ent, page links through vp_next"""
    s, b, e = find_func(t, fn)
    body = t[b:e + 1]
    body = re.sub(r"(\(\s*(?:file_record|xdf_record_header|burp_record|stdf_dir_keys)\s*\*\s*\)\s*)((?:\w+\s*->\s*)?(?:rec|cur_entry))\b", r"\1vp_ent(\2)", body)
    body = re.sub(r"\bentry\s*=\s*(f\s*->\s*cur_entry)\s*;", r"entry = vp_ent(\1);", body)
    body = re.sub(r"(build_primary\s*\(\s*)(f\s*->\s*cur_entry)\b", r"\1vp_ent(\2)", body)
    body = re.sub(r"=\s*\(?\s*((?:\w+\s*->\s*)?\w+)\s*\)?\s*->\s*next_page\b", r"= vp_next(\1)", body)
    k = 0
    while True:
        m = re.compile(r"\(?\s*(f|fte)\s*->\s*dir_page\s*\[").search(body, k)
        if not m:
            break
        o = body.index("[", m.start())
        c = match(body, o)
        new = f"vp_dp({m.group(1)},{body[o + 1:c]})"
        st = m.start() + (1 if body[m.start()] == "(" else 0)
        body = body[:st] + " " + new + body[c + 1:]
        k = st + len(new)
    return t[:b] + body + t[e + 1:]


def pin(t, fn):
    """the file-table entry looked up first is that of the file under study (checked), so that it can be named"""
    s, b, e = find_func(t, fn)
    body = re.sub(r"(\b(f|fte)\s*=\s*file_table\s*\[[^\]]*\]\s*;)", r'\1 VP_ASSERT(\2==&g_ft,"the table entry of the file"); \2=&g_ft;', t[b:e + 1], count=1)
    body = re.sub(r"if\s*\(\s*\(\s*f\s*=\s*file_table\s*\[\s*(\w+)\s*\]\s*\)\s*==[^;]*;", r'f=&g_ft; VP_ASSERT(file_table[\1]==&g_ft,"the table entry of the file");', body, count=1)
    return t[:b] + body + t[e + 1:]


def walk(t, fn, var, page="page_number", f="f", extra=""):
    """cut the walk along linked directory pages of function fn"""
    hv = f"g_k=vp_int(); VP_ASSUME(g_k>=0&&g_k<=4096); {var}=vp_page(g_k);" + extra
    L = Loop([f"g_k==({f}->npages-1)+i", f"{var}==vp_page(g_k)", "i>=0", f"i<=({page})-{f}->npages+1", "g_k<=g_np"], sel=r"vp_next", extra=hv, mem={"f": "", "fte": ""}, keep=("target_page",), name="pagewalk")
    return cut_loops(t, fn, [L])


def full(ctx, t, harness, prim=9, extra_defs=""):
    """program text: prelude, ghost model placed before the file table, code, harness"""
    m = re.search(r"^.*\bfile_table_entry_ptr\s+file_table\s*\[", t, re.M)
    ks = f"enum{{ENT={const(ctx,'ENTRIES_PER_PAGE')},MAXF={const(ctx,'MAX_XDF_FILES')},MAXP={const(ctx,'MAX_DIR_PAGES')},RDM={const(ctx,'RDMODE')},WRM={const(ctx,'WMODE')},PRIM={prim}}};\n"
    decl = "" if "extern" not in m.group(0) else ""
    return PRELUDE + t[:m.start()] + ks + GH + extra_defs + t[m.start():] + MK + harness
