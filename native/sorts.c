#include "vp.h"
void csortr_(float*,int*,int*); void ipsort_(int*,float*,int*); void csortd_(double*,int*,int*); void ipsort8_(int*,double*,int*); void csorte_(int*,int*,int*); void ipsorti_(int*,int*,int*);
void csortc_(char*,int*,int*,int); void ipsortc_(int*,char*,int*,int); void sort_(float*,int*); void isort_(int*,int*); void permut_(float*,int*,int*);
static int cf(const void*a,const void*b){ float x=*(float*)a,y=*(float*)b; return (x>y)-(x<y); }
static int ci(const void*a,const void*b){ int x=*(int*)a,y=*(int*)b; return (x>y)-(x<y); }
static int *idx; static char *seen;
static int isperm(int n){ memset(seen,0,n+1); for(int i=0;i<n;i++){ if(idx[i]<1||idx[i]>n||seen[idx[i]]) return 0; seen[idx[i]]=1; } return 1; }
/* starting index vector: kind 0 = to be initialised by the routine, 1 = a random permutation, 2 = reversed */
static void start(int n,int kind){ for(int i=0;i<n;i++) idx[i]=kind==2?n-i:i+1; if(kind==1) for(int i=n-1;i>0;i--){ int j=vp_in(0,i),t=idx[i]; idx[i]=idx[j]; idx[j]=t; } if(kind==0){ for(int i=0;i<n;i++) idx[i]=vp_int32(); if(n) idx[0]=vp_in(0,1)?0:-(int)(vp_r32()>>2); } idx[n]=-98765; }
#define VAL(T,big) ( mode==0?(T)(i):mode==1?(T)(n-i):mode==2?(T)vp_in(0,3):mode==3?(T)(7):mode==4?(T)(vp_in(-1000000,1000000)*(big)):mode==5?(T)((i*7919)%n):mode==6?(T)(i==n-1?-5:i):mode==7?(T)(i==0?n+5:i):(T)vp_in(-100,100) )
#define TST(T,S,IP,KEY,big) static void KEY(int n,int mode,int kind){ T *l=malloc(sizeof(T)*(n+1)),*l0=malloc(sizeof(T)*(n+1)); for(int i=0;i<n;i++) l[i]=VAL(T,big); memcpy(l0,l,sizeof(T)*n); int n0=n; \
  start(n,kind); if(kind==3){ for(int i=0;i<n;i++) idx[i]=vp_in(1,9); idx[n]=-98765; IP(idx,l,&n); } else S(l,idx,&n); \
  VPCHECK(n==n0&&!memcmp(l,l0,sizeof(T)*n),#KEY "-input","list or length changed (n=%d)",n0); VPCHECK(n0==0||idx[n0]==-98765,#KEY "-past","index written past its %d elements",n0); VPCHECK(isperm(n0),#KEY "-perm","%d elements, mode %d, start %d: the index is not a permutation",n0,mode,kind); \
  for(int k=0;k+1<n0;k++) if(idx[k]>=1&&idx[k]<=n0&&idx[k+1]>=1&&idx[k+1]<=n0&&l[idx[k]-1]>l[idx[k+1]-1]){ vp_fail(#KEY "-order","%d elements, mode %d, start %d: element %d of the order is above the next",n0,mode,kind,k+1); break; } vp_evals+=n; free(l); free(l0); }
TST(float,csortr_,ipsort_,sortr,37.25f) TST(double,csortd_,ipsort8_,sortd,1e-3) TST(int,csorte_,ipsorti_,sorti,2000)
static void sortc(int n,int len,int mode,int kind){ char *l=malloc(n*len+1),*l0=malloc(n*len+1); for(int i=0;i<n*len;i++) l[i]=mode==0?'A'+vp_in(0,1):mode==1?' '+vp_in(0,94):mode==2?'Q':(i%len==len-1?'a'+vp_in(0,25):'z'); memcpy(l0,l,n*len);
  int n0=n; start(n,kind); if(kind==3){ for(int i=0;i<n;i++) idx[i]=vp_in(1,9); idx[n]=-98765; ipsortc_(idx,l,&n,len); } else csortc_(l,idx,&n,len);
  VPCHECK(n==n0&&!memcmp(l,l0,n*len),"sortc-input","list changed"); VPCHECK(n0==0||idx[n0]==-98765,"sortc-past","index written past its %d elements",n0); VPCHECK(isperm(n0),"sortc-perm","%d strings of %d: the index is not a permutation",n0,len);
  for(int k=0;k+1<n0;k++) if(idx[k]>=1&&idx[k]<=n0&&idx[k+1]>=1&&idx[k+1]<=n0&&memcmp(l+(idx[k]-1)*len,l+(idx[k+1]-1)*len,len)>0){ vp_fail("sortc-order","%d strings of %d characters, mode %d, start %d: string %d of the order is above the next",n0,len,mode,kind,k+1); break; } free(l); free(l0); }
static void heap(int n,int mode){ float *a=malloc(4*(n+2)),*b=malloc(4*(n+2)); int *p=malloc(4*(n+2)),*q=malloc(4*(n+2)); for(int i=0;i<n;i++){ a[i]=b[i]=VAL(float,3.5f); p[i]=q[i]=VAL(int,2000); } a[n]=-123.5f; p[n]=-777; int n0=n;
  sort_(a,&n); isort_(p,&n); qsort(b,n0,4,cf); qsort(q,n0,4,ci); VPCHECK(n==n0&&a[n0]==-123.5f&&p[n0]==-777,"heap-past","sort or isort wrote past %d elements",n0); VPCHECK(!memcmp(a,b,4*n0)||({int d=0;for(int i=0;i<n0;i++)d|=a[i]!=b[i];!d;}),"sort","%d reals, mode %d: not the sorted input",n0,mode); VPCHECK(!memcmp(p,q,4*n0),"isort","%d integers, mode %d: not the sorted input",n0,mode); free(a);free(b);free(p);free(q); }
static void perm(int ni,int nj){ float *z=malloc(4*(ni*nj+1)),*w=malloc(4*(ni*nj+1)); for(int i=0;i<ni*nj;i++) z[i]=w[i]=i+1; z[ni*nj]=-5; int a=ni,b=nj; permut_(z,&ni,&nj); int bad=z[a*b]!=-5||a!=ni||b!=nj; for(int j=0;j<b;j++) for(int i=0;i<a;i++) if(z[j*a+i]!=w[(b-1-j)*a+i]) bad=1; VPCHECK(!bad,"permut","%d by %d field: rows are not those of the input in reverse order",a,b); free(z);free(w); }
int main(){ vp_init(); int big=vp_thorough?200000:40000; idx=malloc(4*(big+2)); seen=malloc(big+2);
  for(int n=0;n<=(vp_thorough?300:140);n++) for(int mode=0;mode<9;mode++){ if(mode==5&&!n) continue; for(int kind=0;kind<4;kind++){ if(n==0&&kind==3) continue; sortr(n,mode,kind); sortd(n,mode,kind); sorti(n,mode,kind); if(mode<4&&n) for(int len=1;len<9;len+=(len<4?1:4)) sortc(n,len,mode,kind); } heap(n,mode); }
  /* every arrangement of small multisets */
  for(int n=1;n<=7;n++){ int tot=1; for(int k=0;k<n;k++) tot*=n<7?n:4; for(int c=0;c<tot;c++){ int *l=malloc(4*n),*m=malloc(4*n),*s=malloc(4*n); int b=n<7?n:4,x=c; for(int k=0;k<n;k++){ l[k]=m[k]=s[k]=x%b; x/=b; } int nn=n; idx[0]=0; csorte_(l,idx,&nn); int bad=!isperm(n); for(int k=0;k+1<n&&!bad;k++) if(l[idx[k]-1]>l[idx[k+1]-1]) bad=1; VPCHECK(!bad,"sorti-small","arrangement %d of %d elements: index wrong",c,n); isort_(m,&nn); qsort(s,n,4,ci); VPCHECK(!memcmp(m,s,4*n),"isort-small","arrangement %d of %d elements",c,n); free(l);free(m);free(s); } }
  int bg[]={500,1000,1023,4096,9999,big}; for(int k=0;k<6;k++) for(int mode=0;mode<9;mode++){ sortr(bg[k],mode,mode%4); sortd(bg[k],mode,(mode+1)%4); sorti(bg[k],mode,(mode+2)%4); if(mode<4&&bg[k]<10000) sortc(bg[k],4,mode,mode); heap(bg[k],mode); }
  for(int ni=0;ni<12;ni++) for(int nj=0;nj<12;nj++) perm(ni,nj);
  return vp_done(); }
