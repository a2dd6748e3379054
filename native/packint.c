#include "vp.h"
int compact_integer(void*,void*,void*,int,int,int,int,int);
int compact_short(void*,void*,void*,int,int,int,int,int);
int compact_char(void*,void*,void*,int,int,int,int,int);
#define GW 8
#define MAXW 4096
static uint32_t pk[MAXW+2*GW], ref[MAXW+2*GW], before[MAXW+2*GW];
static unsigned getb(uint32_t*a,long q){ return (a[q>>5]>>(31-(q&31)))&1; }
static void setb(uint32_t*a,long q,unsigned b){ uint32_t m=1u<<(31-(q&31)); if(b) a[q>>5]|=m; else a[q>>5]&=~m; }
typedef int (*PF)(void*,void*,void*,int,int,int,int,int);
/* esz: element size; base op (pack); unpack op = base+1 */
static uint32_t ld(void*p,int esz,long i){ if(esz==4) return ((uint32_t*)p)[i]; if(esz==2) return ((uint16_t*)p)[i]; return ((uint8_t*)p)[i]; }
static void st(void*p,int esz,long i,uint32_t v){ if(esz==4) ((uint32_t*)p)[i]=v; else if(esz==2) ((uint16_t*)p)[i]=v; else ((uint8_t*)p)[i]=v; }
static uint32_t src[8192], out[8192], out0[8192];
static void one(const char*nm,PF f,int op,int esz,int hdr,int nb0,int n,int off,int stride,int vmode){
  int sgn=(op==3); int uop=op+1; uint32_t h[4]={0,0,0,0}; int nb=nb0; int small=esz<4;
  memset(src,0xA5,sizeof src);
  uint32_t base=vp_int32(); int rb = 1+vp_in(0,31);
  uint32_t vmask = (nb0>0 && nb0<32) ? ((1u<<nb0)-1) : 0xFFFFFFFFu;
  for(int k=0;k<n;k++){ uint32_t v;
    switch(vmode){ case 0: v=vp_int32(); break; case 1: v=base; break; case 2: v=base+(vp_r32()>>(32-rb)); break; case 3: v=vp_r32()&vmask; if(sgn&&!hdr&&nb0>0) v-= (nb0==32?0x80000000u:(1u<<(nb0-1))); break;
      case 4: v= k==0?0x80000000u: vp_r32()>>(32-rb); break; default: v= (k&1)?0u:(vp_r32()>>(32-rb)); }
    if(small && nb0>0) v&=vmask;  /* a token must be able to carry the value (no offset is removed) */
    st(src,esz,(long)k*stride,v); }
  for(int i=0;i<MAXW+2*GW;i++) pk[i]=vp_r32();
  memcpy(before,pk,sizeof pk); memcpy(ref,pk,sizeof pk);
  uint32_t *P=pk+GW,*R=ref+GW;
  int r=f(src,hdr?h:0,P,n,nb,off,stride,op);
  char c[200]; snprintf(c,sizeof c,"%s op=%d header=%d width=%d n=%d offset=%d stride=%d first=%#x",nm,op,hdr,nb0,n,off,stride,ld(src,esz,0));
  if(nb0>0) VPCHECK(r==nb0,"pack-ret","%s: returned %d",c,r);
  else { VPCHECK(r>=1&&r<=32,"auto-width","%s: detected width %d",c,r); if(r<1||r>32) return; nb=r; }
  uint32_t m=nb==32?0xFFFFFFFFu:((1u<<nb)-1);
  /* specification of the token */
  int shift=0; int64_t mn=0,mx=0;
  for(int k=0;k<n;k++){ int64_t v= sgn? (int64_t)(int32_t)ld(src,esz,(long)k*stride):(int64_t)ld(src,esz,(long)k*stride); if(!k||v<mn)mn=v; if(!k||v>mx)mx=v; }
  if(hdr){ while(((mx-mn)>>shift)>>nb) shift++;
    VPCHECK(h[0]==(0xFD000000u|(uint32_t)shift<<6|(uint32_t)nb)&&h[1]==(uint32_t)n&&h[2]==(uint32_t)mn&&h[3]==(uint32_t)mx,"pack-header","%s: header %08x %x %x %x, min=%lld max=%lld",c,h[0],h[1],h[2],h[3],(long long)mn,(long long)mx);
    if(nb0<0) VPCHECK(shift==0,"auto-width","%s: detected width %d does not hold range %lld",c,nb,(long long)(mx-mn)); }
  else if(nb0<0){ for(int k=0;k<n;k++){ int64_t v= sgn? (int64_t)(int32_t)ld(src,esz,(long)k*stride):(int64_t)ld(src,esz,(long)k*stride); int64_t t=sgn? v+((int64_t)1<<(nb-1)):v; if(t<0||(t>>nb)){ vp_fail("auto-width","%s: detected width %d cannot hold %lld",c,nb,(long long)v); break; } } }
  for(int k=0;k<n;k++){ uint32_t x=ld(src,esz,(long)k*stride),t;
    if(hdr) t = esz==4 ? (uint32_t)(((sgn?(int64_t)(int32_t)x:(int64_t)x)-mn)>>shift) : x>>shift; else t= sgn? x+(1u<<(nb-1)) : x;
    t&=m; for(int b=0;b<nb;b++) setb(R,(long)off+(long)k*nb+b,(t>>(nb-1-b))&1); }
  for(int i=0;i<MAXW+2*GW;i++) if(pk[i]!=ref[i]){ vp_evals++; vp_fail("pack-stream","%s: stream word %d is %08x, expected %08x (was %08x)",c,i-GW,pk[i],ref[i],before[i]); break; }
  vp_evals++;
  /* unpack from the reference stream: exact value of every token; frame */
  for(int i=0;i<8192;i++) out[i]=out0[i]=0xC3C3C3C3u^i;
  r=f(out,hdr?h:0,R,n,nb,off,stride,uop);
  VPCHECK(r==nb,"unpack-ret","%s: unpack returned %d",c,r);
  memcpy(pk,out,sizeof out<sizeof pk?sizeof out:sizeof pk);
  for(int k=0;k<n;k++){ uint32_t x=ld(src,esz,(long)k*stride),v,got=ld(out,esz,(long)k*stride);
    if(hdr){ if(esz==4){ uint64_t d=(uint64_t)((sgn?(int64_t)(int32_t)x:(int64_t)x)-mn); v=(uint32_t)(((d>>shift)<<shift)+mn); } else v=((x>>shift)&m)<<shift; }
    else { uint32_t t=((sgn? x+(1u<<(nb-1)):x)&m); v= sgn? t-(1u<<(nb-1)):t; }
    if(esz==2) v&=0xFFFF; if(esz==1) v&=0xFF;
    vp_evals++; if(got!=v){ vp_fail("unpack-value","%s: element %d is %#x, expected %#x (original %#x)",c,k,got,v,x); break; }
    st(out0,esz,(long)k*stride,v); }
  VPCHECK(!memcmp(out,out0,sizeof out),"unpack-frame","%s: storage between strided elements changed",c);
}
int main(int ac,char**av){ vp_init(); int which=atoi(av[1]); long N= vp_thorough? 60000:9000;
  for(long it=0;it<N;it++){ int n= it%7==0? vp_in(1,4): vp_in(1,70); int off= it%3==0?0: (it%3==1? 32*vp_in(0,6): vp_in(0,300)); int stride= it%4? 1: vp_in(1,5); int hdr= vp_in(0,1); int vm=vp_in(0,5);
    if(which==1){ int op= vp_in(0,1)?1:3; int nb= vp_in(0,9)==0? -1: vp_in(1,32); if(nb==-1&&0) hdr=0; one("compact_integer",compact_integer,op,4,hdr,nb,n,off,stride,vm); }
    else { if(vp_in(0,1)) { int nb= vp_in(0,11)==0?-1:vp_in(1,16); one("compact_short",compact_short,5,2,0,nb,n,off,stride,vm==4?0:vm); }
           else { int nb=vp_in(0,11)==0?-1:vp_in(1,8); one("compact_char",compact_char,9,1,0,nb,n,off,stride,vm==4?0:vm); } } }
  return vp_done(); }
