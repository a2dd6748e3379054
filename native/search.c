#include "vp.h"
int bufrchr_(int*,int*,int*); int ez_cherche_(float*,float*,int*);
void interp1d_findpos_(int*,int*,int*,int*,int*,float*,int*,float*); void interp1d_findpos8_(int*,int*,int*,int*,int*,double*,int*,double*);
static int *tab; static float *ft;
static void bufr(int n,int dup){ int v=vp_in(-50,5); for(int i=0;i<n;i++){ tab[3*i]=v; tab[3*i+1]=vp_int32(); tab[3*i+2]=vp_int32(); v+=dup?vp_in(0,2):vp_in(1,3); }
  int lo=n?tab[0]-2:0,hi=n?tab[3*(n-1)]+2:3; for(int e=lo;e<=hi;e++){ int ex=-1; for(int i=0;i<n&&ex<0;i++) if(tab[3*i]==e) ex=i+1; int e0=e,n0=n,r=bufrchr_(&e,tab,&n);
    VPCHECK(e==e0&&n==n0&&(ex<0?r==-1:(r>=1&&r<=n&&tab[3*(r-1)]==e)),"bufrchr","table of %d entries, element %d: result %d, %s",n,e,r,ex<0?"the element is absent":"the element is there"); } }
static void cherche(int n,int dup){ float v=vp_in(-1000,1000)/8.0f; for(int i=0;i<n;i++){ ft[i]=v; v+=(dup?vp_in(0,3):vp_in(1,9))/8.0f; }
  for(int q=0;q<2*n+6;q++){ float x= q<n?ft[q]: q<2*n?ft[q-n]+0.0625f: q==2*n?ft[0]-1e30f:q==2*n+1?ft[n-1]+1e30f:q==2*n+2?ft[0]-0.01f:q==2*n+3?ft[n-1]+0.01f:vp_in(-2000,2000)/16.0f; float x0=x; int n0=n,r=ez_cherche_(&x,ft,&n);
    VPCHECK(x==x0&&n==n0&&r>=1&&(r<n||n==1)&&(n==1||((r==1||ft[r-1]<x)&&(r>=n-1||x<=ft[r]))),"ez_cherche","table of %d values, query %g: result %d (neighbours %g %g)",n,x,r,n>1?ft[r>0&&r<=n?r-1:0]:0,n>1?ft[r>0&&r<n?r:0]:0); } }
#define FP(T,NAME,KEY) static void KEY(int N,int dec,int ns,int sd,int dd,int nt,int ragged){ T *src=malloc(sizeof(T)*sd*N),*dst=malloc(sizeof(T)*dd*nt); int *pos=malloc(4*dd*nt); \
  for(int i=0;i<sd*N;i++) src[i]=-777; for(int i=0;i<dd*nt;i++){ dst[i]=-555; pos[i]=-333; } \
  for(int s=0;s<ns;s++){ T v=vp_in(-100,100); for(int k=0;k<N;k++){ int kk=dec?N-1-k:k; src[kk*sd+s]=v; v+=ragged?vp_in(1,40)/4.0:1; } \
    for(int t=0;t<nt;t++){ int k=(t+s*7)%(N+2)-1; T d; int w=vp_in(0,2); if(k<0) d=(dec?src[(N-1)*sd+s]:src[s])-(T)vp_in(1,1000)/8; else if(k>=N-1&&w) d=(dec?src[s]:src[(N-1)*sd+s])+(T)vp_in(1,1000)/8; else if(k>=N-1||w==0) d=src[(k<N?k:N-1)*sd+s]; else d=(src[k*sd+s]+src[(k+1)*sd+s])/2; dst[t*dd+s]=d; } } \
  T *s0=malloc(sizeof(T)*sd*N),*d0=malloc(sizeof(T)*dd*nt); memcpy(s0,src,sizeof(T)*sd*N); memcpy(d0,dst,sizeof(T)*dd*nt); \
  NAME(&ns,&N,&nt,&sd,&dd,src,pos,dst); \
  VPCHECK(!memcmp(s0,src,sizeof(T)*sd*N)&&!memcmp(d0,dst,sizeof(T)*dd*nt),#KEY "-input","levels changed"); \
  for(int t=0;t<nt;t++) for(int s=0;s<dd;s++){ int r=pos[t*dd+s]; vp_evals++; if(s>=ns){ if(r!=-333) vp_fail(#KEY "-extra","position written for an unused point %d of %d",s+1,ns); continue; } T d=dst[t*dd+s]; \
    if(r<1||r>=N){ vp_fail(#KEY "-range","%d levels %s, value %g: position %d",N,dec?"decreasing":"increasing",(double)d,r); continue; } T a=src[(r-1)*sd+s],b=src[r*sd+s]; int below=dec?d>src[s]:d<src[s], above=dec?d<src[(N-1)*sd+s]:d>src[(N-1)*sd+s]; \
    int good= below? r==1: above? r==N-1: dec? (a>=d&&d>=b):(a<=d&&d<=b); if(!good) vp_fail(#KEY,"%d levels %s, value %g: position %d holds [%g, %g]",N,dec?"decreasing":"increasing",(double)d,r,(double)a,(double)b); } \
  free(src);free(dst);free(pos);free(s0);free(d0); }
FP(float,interp1d_findpos_,findpos4)
FP(double,interp1d_findpos8_,findpos8)
int main(){ vp_init(); tab=malloc(12*70000); ft=malloc(4*70000);
  for(int n=0;n<(vp_thorough?400:120);n++){ bufr(n,0); bufr(n,1); if(n){ cherche(n,0); cherche(n,1); } }
  int big[]={1000,1023,1024,1025,4096,4097,20000}; for(int k=0;k<7;k++){ bufr(big[k],0); cherche(big[k],0); }
  for(int N=2;N<=(vp_thorough?600:260);N++) for(int dec=0;dec<2;dec++) for(int rg=0;rg<2;rg++){ int ns=vp_in(1,4),sd=ns+vp_in(0,2),dd=ns+vp_in(0,2); findpos4(N,dec,ns,sd,dd,N+2,rg); findpos8(N,dec,ns,sd,dd,N+2,rg); }
  for(int it=0;it<(vp_thorough?4000:400);it++) for(int dec=0;dec<2;dec++){ int N=vp_in(2,30); findpos4(N,dec,1,1,1,4*N,1); findpos8(N,dec,2,3,2,4*N,1); }
  return vp_done(); }
