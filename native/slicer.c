#include "vp.h"
void f_bits_get_(int32_t*,int32_t*,int32_t*,int32_t*); void f_bits_put_(int32_t*,int32_t*,int32_t*,int32_t*);
static unsigned getb(uint32_t*a,long q){ return (a[q>>5]>>(31-(q&31)))&1; }
#define NS 400
static uint32_t st[NS+8],ref[NS+8]; static int w[NS],sl[NS+2]; 
int main(){ vp_init();
  for(long it=0;it<(vp_thorough?200000:30000);it++){ int n= it%5?vp_in(0,NS):vp_in(1,5); int mode=vp_in(0,3);
    for(int i=0;i<NS+8;i++) st[i]=vp_r32();
    for(int i=0;i<n;i++) w[i]= mode==0?vp_in(0,32): mode==1? (vp_in(0,1)?32:vp_in(0,8)) : mode==2? 8*vp_in(1,4) : vp_in(-3,40);
    for(int i=0;i<NS+2;i++) sl[i]=0x5A5A5A5A; int n0=n; memcpy(ref,st,sizeof st);
    f_bits_get_((int32_t*)st,w,sl,&n); long p=0;
    for(int i=0;i<NS+2;i++){ int ww= i<n? (w[i]<0?0:w[i]>32?32:w[i]):0; uint32_t e=0; for(int t=0;t<ww;t++) e=e<<1|getb(st,p+t); if(i>=n) e=0x5A5A5A5A; p+=ww; vp_evals++;
      if((uint32_t)sl[i]!=e){ vp_fail("get","%d slices, slice %d of width %d at bit %ld is %#x, expected %#x (widths %d %d %d ...)",n,i+1,ww,p-ww,sl[i],e,n>0?w[0]:0,n>1?w[1]:0,n>2?w[2]:0); break; } }
    VPCHECK(n==n0&&!memcmp(ref,st,sizeof st),"get-frame","reading changed the stream or the count");
    for(int i=0;i<n;i++) sl[i]=vp_int32();
    p=0; for(int i=0;i<n;i++){ int ww=(w[i]<0?0:w[i]>32?32:w[i]); for(int t=0;t<ww;t++){ unsigned b=((uint32_t)sl[i]>>(ww-1-t))&1, m=1u<<(31-(p&31)); if(b) ref[p>>5]|=m; else ref[p>>5]&=~m; p++; } }
    if(p&31) ref[p>>5]&= ~((1u<<(32-(p&31)))-1);
    f_bits_put_((int32_t*)st,w,sl,&n);
    for(int i=0;i<NS+8;i++){ vp_evals++; if(st[i]!=ref[i]){ vp_fail("put","%d slices: stream word %d is %#x, expected %#x (widths %d %d %d ...)",n,i,st[i],ref[i],n>0?w[0]:0,n>1?w[1]:0,n>2?w[2]:0); break; } }
  }
  return vp_done(); }
