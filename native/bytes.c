#include "vp.h"
void swap_buffer_endianness(uint32_t*const,const int32_t); void movlev_(int*,int*,int*); void move3216_(int*,int*,int*); void move832_(int*,int*,int*); void move6432_(uint32_t*,uint32_t*,int32_t*);
#define N 700
static uint32_t a[N+4],b[N+4],o[N+4];
static uint32_t bs(uint32_t x){ unsigned char c[4]; memcpy(c,&x,4); return (uint32_t)c[0]<<24|c[1]<<16|c[2]<<8|c[3]; }
int main(){ vp_init();
  for(long it=0;it<(vp_thorough?200000:20000);it++){ int n= it<50?(int)it-3:vp_in(0,N/2); for(int i=0;i<N+4;i++){ a[i]=o[i]=vp_int32(); b[i]=0x77777777; }
    swap_buffer_endianness(a,n); for(int i=0;i<N+4;i++){ uint32_t e=i<n?bs(o[i]):o[i]; vp_evals++; if(a[i]!=e){ vp_fail("swap","swap of %d words: word %d %#x becomes %#x, expected %#x",n,i,o[i],a[i],e); break; } }
    swap_buffer_endianness(a,n); VPCHECK(!memcmp(a,o,sizeof a),"swap-twice","swapping %d words twice does not restore them",n);
    int m=n;
    for(int f=0;f<3;f++){ for(int i=0;i<N+4;i++) b[i]=0x77777777; m=n; if(f==0) movlev_((int*)a,(int*)b,&m); else if(f==1) move3216_((int*)a,(int*)b,&m); else move832_((int*)a,(int*)b,&m);
      for(int i=0;i<N+4;i++){ uint32_t e= i<n? (f==0?o[i]: f==1? (o[i]<<16|o[i]>>16): bs(o[i])):0x77777777; vp_evals++; if(b[i]!=e||a[i]!=o[i]){ vp_fail(f==0?"copy":f==1?"half-swap":"byte-swap","n=%d: word %d %#x gives %#x, expected %#x",n,i+1,o[i],b[i],e); break; } }
      if(f>0){ uint32_t c[N+4]; memset(c,0,sizeof c); if(f==1) move3216_((int*)b,(int*)c,&m); else move832_((int*)b,(int*)c,&m); VPCHECK(n<=0||!memcmp(c,o,4*n),"twice","converting twice does not restore (n=%d)",n); } }
    if(n>=0){ for(int i=0;i<N+4;i++) b[i]=0x77777777; m=n; move6432_(a,b,&m); for(int i=0;i<N+4;i++){ uint32_t e=i<2*n?o[i^1]:0x77777777; vp_evals++; if(b[i]!=e||m!=n||a[i]!=o[i]){ vp_fail("pair-swap","n=%d: word %d is %#x, expected %#x",n,i,b[i],e); break; } } }
  }
  return vp_done(); }
