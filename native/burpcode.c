#include "vp.h"
int mrbcov_(int*); int mrbdcv_(int*); int mrbcol_(int*,int*,int*); int mrbdcl_(int*,int*,int*); int mrbtyp_(int*,int*,int*,int*);
#define N 5000
static int a[N+2],b[N+2],c[N+2];
int main(){ vp_init();
  for(int code=0;code<65536;code++){ int F=code>>14,X=(code>>8)&63,Y=code&255,dec=F*100000+X*1000+Y,c1=code,d1=dec;
    int r=mrbdcv_(&c1); VPCHECK(r==dec,"decode-scalar","code %d (F=%d X=%d Y=%d) decodes to %d",code,F,X,Y,r);
    r=mrbcov_(&d1); VPCHECK(r==code,"encode-scalar","descriptor %06d encodes to %d, expected %d",dec,r,code);
    VPCHECK(c1==code&&d1==dec,"argument-changed","argument of scalar conversion changed for code %d",code);
    int n=1; b[0]=code;b[1]=-7;a[0]=-1;a[1]=-9; r=mrbdcl_(b,a,&n); VPCHECK(r==0&&a[0]==dec&&a[1]==-9&&b[0]==code,"decode-list","list of one code %d decodes to %d (return %d)",code,a[0],r);
    { int c2=(int)(short)code | (code&1? 0:0x550000); if(code<32768) c2=code|(code<<17); int c20=c2; r=mrbdcv_(&c2); VPCHECK(r==dec&&c2==c20,"decode-scalar-16bit","code %d kept in a wider integer as %d decodes to %d",code,c20,r);
      int m=1; b[0]=c20; a[0]=-1; r=mrbdcl_(b,a,&m); VPCHECK(r==0&&a[0]==dec&&b[0]==c20,"decode-list-16bit","list of one code %d kept in a wider integer as %d decodes to %d",code,c20,a[0]); b[0]=code; }
    a[0]=dec; b[0]=-1; b[1]=-7; r=mrbcol_(a,b,&n); VPCHECK(r==0&&b[0]==code&&b[1]==-7&&a[0]==dec,"encode-list","list of one descriptor %06d encodes to %d (return %d)",dec,b[0],r);
  }
  for(int it=0;it<(vp_thorough?4000:600);it++){ int n=it<40?it:vp_in(0,N); 
    for(int i=0;i<N+2;i++){ c[i]=vp_in(0,65535); a[i]=-5; b[i]=c[i]; }
    int r=mrbdcl_(b,a,&n); VPCHECK(r==0,"decode-list","n=%d returns %d",n,r);
    for(int i=0;i<N+2;i++){ int e= i<n? (c[i]>>14)*100000+((c[i]>>8)&63)*1000+(c[i]&255):-5; vp_evals++; if(a[i]!=e||b[i]!=c[i]){ vp_fail("decode-list","n=%d element %d: code %d gives %d, expected %d",n,i+1,c[i],a[i],e); break; } }
    for(int i=0;i<N+2;i++){ a[i]=(c[i]>>14)*100000+((c[i]>>8)&63)*1000+(c[i]&255); b[i]=-6; }
    r=mrbcol_(a,b,&n); VPCHECK(r==0,"encode-list","n=%d returns %d",n,r);
    for(int i=0;i<N+2;i++){ int e= i<n? c[i]:-6; vp_evals++; if(b[i]!=e){ vp_fail("encode-list","n=%d element %d: descriptor %06d gives %d, expected %d",n,i+1,a[i],b[i],e); break; } }
  }
  for(int nat=0;nat<16;nat++) for(int typ=0;typ<128;typ++) for(int stp=0;stp<16;stp++){ int m1=-1,n=nat,t=typ,s=stp; int r=mrbtyp_(&n,&t,&s,&m1);
    VPCHECK(r==(nat<<11|typ<<4|stp)&&n==nat&&t==typ&&s==stp,"block-type-encode","nature %d type %d subtype %d gives %d",nat,typ,stp,r);
    int bt=nat<<11|typ<<4|stp; n=t=s=-1; r=mrbtyp_(&n,&t,&s,&bt); VPCHECK(r==0&&n==nat&&t==typ&&s==stp,"block-type-decode","block type %d gives nature %d type %d subtype %d (return %d)",bt,n,t,s,r); }
  for(int i=0;i<2000;i++){ int bt= i==0?-2:i==1?INT_MIN:-2-vp_in(0,2000000000),n=3,t=4,s=5,r=mrbtyp_(&n,&t,&s,&bt); VPCHECK(r==38&&n==3&&t==4&&s==5,"block-type-invalid","block type %d returns %d",bt,r); }
  return vp_done(); }
