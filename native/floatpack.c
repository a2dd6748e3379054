#include "vp.h"
#include <math.h>
int c_float_packer(float*,int,int*,int*,int); int c_float_unpacker(float*,int*,int*,int,int*); void c_float_packer_params(int*,int*,int*,int*,int); int float_packer_(float*,int*,int*,int*,int*); int float_unpacker_(float*,int*,int*,int*,int*);
static float mk(int e,unsigned m,int s){ union{unsigned u; float f;} t; t.u=(unsigned)s<<31|(unsigned)e<<23|(m&0x7fffff); return t.f; }
static unsigned bits(float f){ union{unsigned u; float f;} t; t.f=f; return t.u; }
int main(){ vp_init(); static float a[5000],b[5000],a0[5000]; static int st[2600];
  for(int it=0;it<(vp_thorough?400000:30000);it++){ int n= it%3?vp_in(1,12):vp_in(1,it%50?200:4000), nb=vp_in(1,16), mode=vp_rnd()%9, E=vp_in(1,254), hd[3], w=n+1>>1, hs,ss,p,q; if(mode>6) E=vp_in(1,40);
    for(int i=0;i<n;i++) switch(mode){ case 0: a[i]=mk(vp_in(E>24?E-24:0,E),vp_r32(),vp_rnd()&1); break; case 1: a[i]=mk(vp_in(0,E),vp_r32(),vp_rnd()&1); break; case 2: a[i]=mk(E,vp_r32(),0); break; case 3: a[i]=mk(E,0x7fffff-vp_in(0,3),1); break; case 4: a[i]=vp_in(0,3)?0.f:mk(E,vp_r32(),vp_rnd()&1); break; case 5: a[i]=mk(E,12345*nb,0); break; case 6: a[i]=(float)(250+60*sin(i*.1)); break; case 7: a[i]=vp_rnd()%3?mk(E,vp_r32(),0):0.f; break; default: a[i]=vp_rnd()%3?mk(vp_in(0,E),vp_r32(),vp_rnd()&1):-0.f; }
    memcpy(a0,a,4*n); for(int i=0;i<2600;i++) st[i]=0x5a5a5a5a; for(int i=0;i<n+4;i++) b[i]=-7.5f; c_float_packer_params(&hs,&ss,&p,&q,n); VPCHECK(hs==12&&ss==4*w,"params","sizes for %d points are %d and %d",n,hs,ss);
    int rc= it&1?c_float_packer(a,nb,hd,st,n):float_packer_(a,&nb,hd,st,&n); VPCHECK(rc==0,"pack","packing %d values in %d bits returns %d",n,nb,rc); VPCHECK(st[w]==0x5a5a5a5a&&st[w+1]==0x5a5a5a5a,"past","stream of %d values written past its end",n); VPCHECK(!memcmp(a,a0,4*n),"source","source changed");
    for(int i=0;i<n;i++){ unsigned t=((unsigned)st[i>>1]>>(i&1?0:16))&0xffff; if(t>>nb){ vp_fail("token","token %d of %d is %u, wider than %d bits",i,n,t,nb); break; } }
    int nb2=0; rc= it&2?c_float_unpacker(b,hd,st,n,&nb2):float_unpacker_(b,hd,st,&n,&nb2); VPCHECK(rc==0&&nb2==nb,"unpack","unpacking returns %d, %d bits instead of %d",rc,nb2,nb); VPCHECK(b[n]==-7.5f&&b[n+1]==-7.5f,"past","values written past the destination");
    double mn=1e300,mx=-1e300; int me=0; for(int i=0;i<n;i++){ double v=a[i]; if(fabs(v)<1.17549435e-38) v=0; if(v<mn) mn=v; if(v>mx) mx=v; int e=(bits(a[i])>>23)&255; if(e>me) me=e; }
    double u=ldexp(1,me-150); double rg=trunc(mx/u)-trunc(mn/u); int s=0; while(floor(rg/ldexp(1,s))>(1<<nb)-1) s++; double step=ldexp(u,s); if(s==0) step=u;
    for(int i=0;i<n;i++){ double v=a[i]; if(fabs(v)<1.17549435e-38) v=0; double er=fabs(b[i]-v); vp_evals++; if(!(er<step*(1+(s>0))) ){ vp_fail("error","%d values in %d bits (content %d, exponent %d): element %d %.9g comes back as %.9g, step %g",n,nb,mode,me,i,a[i],b[i],step); break; }
      double m=trunc(v/u); if(!(fabs(b[i]/u-m)<(s?ldexp(1,s):1e-9)) && me>0){ vp_fail("step","%d values in %d bits (content %d): element %d %.9g comes back as %.9g, more than a step %g away",n,nb,mode,i,a[i],b[i],step); break; } }
    if(mode==5&&me) for(int i=0;i<n;i++) VPCHECK(bits(b[i])==bits(a[i]),"constant","constant block: %.9g comes back as %.9g",a[i],b[i]);
    int h2[3]; memcpy(h2,hd,12); h2[2]=n+1; VPCHECK(c_float_unpacker(b,h2,st,n,&nb2)!=0,"refuse","another number of points is accepted"); h2[2]=n; h2[0]^=1<<vp_in(20,31); VPCHECK(c_float_unpacker(b,h2,st,n,&nb2)!=0,"refuse","a foreign header is accepted"); }
  { float x[2]={1,2}; int hd[3]={1,2,3},s[2]={4,5}; int B[]={0,-1,17,32}; for(int i=0;i<4;i++) VPCHECK(c_float_packer(x,B[i],hd,s,2)==-1&&hd[0]==1&&s[0]==4,"refuse-bits","%d bits accepted",B[i]); }
  return vp_done(); }
