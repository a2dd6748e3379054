#include "vp.h"
#include <unistd.h>
void b40toc_(char*,size_t,int*); int ctob40_(char*,size_t);
static const char A[]="0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ/?: ";
static int ord(int c){ for(int i=0;i<40;i++) if(A[i]==c) return i; return 36; }
int main(){ vp_init(); FILE*out=fdopen(dup(1),"w"); if(!freopen("/dev/null","w",stdout)) return 3; (void)out; int fd=dup(fileno(out)); 
  /* the library reports illegal characters on Fortran unit 6: only legal ones in the bulk, a few illegal ones */
  dup2(fd,1); setvbuf(stdout,0,_IOLBF,0);
  for(int w=0;w<(vp_thorough?20000000:2000000);w++){ int x= w<70000? w : (int)(vp_r32()>>1), y=x; char r[12],s[9]; memset(r,'#',12); b40toc_(r,8,&x); long v=0; for(int i=0;i<8;i++) v=v*40+ord(r[i]); VPCHECK(v==y&&x==y&&r[8]=='#',"decode","word %d decodes to '%.8s' which is the number %ld",y,r,v);
    if(y<102400000||1){ int n=6; memcpy(s,r+2,6); if(r[0]=='0'&&r[1]=='0'){ int e=ctob40_(s,n); VPCHECK(e==y&&!memcmp(s,r+2,6),"roundtrip","word %d decodes to '%.6s' which encodes to %d",y,s,e); } } }
  for(int it=0;it<300000;it++){ int n=vp_in(0,6); char s[8],o[8],r[8]; long v; do { v=0; for(int i=0;i<n;i++){ s[i]=o[i]=A[vp_rnd()%40]; v=v*40+ord(s[i]); } } while(v>2147483647L); int e=ctob40_(s,n); VPCHECK(e==v&&!memcmp(s,o,n),"encode","'%.*s' encodes to %d, expected %ld",n,o,e,v); b40toc_(r,8,&e); VPCHECK(!memcmp(r+8-n,o,n),"string-roundtrip","'%.*s' comes back as '%.8s'",n,o,r); }
  { int c=dup(1); fflush(stdout); if(!freopen("/dev/null","w",stderr)){} int nul=1; (void)nul; 
    /* unit 6 is file descriptor 1 of the Fortran runtime: send it to the bit bucket while illegal characters are encoded */
    FILE*dn=fopen("/dev/null","w"); int bad=0; char msg[200]="";
    dup2(fileno(dn),1); for(int it=0;it<3000;it++){ int n=vp_in(1,5); char s[8],o[8]; long v=0; for(int i=0;i<n;i++){ s[i]=o[i]= vp_rnd()%3? A[vp_rnd()%40] : (char)(1+vp_rnd()%255); v=v*40+ord((unsigned char)s[i]); } int e=ctob40_(s,n); vp_evals++; if(e!=v&&!bad){ bad=1; sprintf(msg,"'%.*s' (illegal characters count as a slash) encodes to %d, expected %ld",n,o,e,v); } }
    extern void _gfortran_flush_i4(int*); int six=6; _gfortran_flush_i4(&six); dup2(c,1); if(bad) vp_fail("illegal","%s",msg); }
  return vp_done(); }
