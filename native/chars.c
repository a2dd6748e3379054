#include "vp.h"
#include <ctype.h>
void r4astrg_(char*,char*,int*,int*,int); void strgr4a_(char*,char*,int*,int*,int);
void cstring_to_fstring(const char*,char*,int); char*fstring_to_cstring(char*,int,int); char**allocate_string_array(int); char**fill_string_array(char**,char*,int,int,int); void free_string_array(char**); void free_cstring(char*);
unsigned ftnStrLen(const char*,uint32_t); void up2low_(char*,char*,size_t,size_t); void low2up_(char*,char*,size_t,size_t);
void str_cp_init(char*,int,const char*,int); void memcpy_8_16(int16_t*,int8_t*,int); void memcpy_16_8(int8_t*,int16_t*,int); void memcpy_16_32(int32_t*,int16_t*,int,int); void memcpy_32_16(short*,int*,int,int);
void rah2char_(char*,int*,const int*,int); void char2rah_(char*,int*,const int*,int);
int ftn2c_string_copy(unsigned char*,unsigned char*,int,int,unsigned char); int ftn2c_cstra_fstra(unsigned char**,unsigned char*,int,int,int,unsigned char); int ftn2c_fstra_cstra(unsigned char*,unsigned char**,int,int,int,unsigned char);
static unsigned char rc(void){ switch(vp_rnd()%5){ case 0: return ' '; case 1: return "azAZ@[`{09~"[vp_rnd()%11]; case 2: return vp_rnd(); default: return 32+vp_rnd()%95; } }
/* text with blanks clustered at the end, no NUL */
static void rtext(unsigned char*s,int n){ int sig= n? vp_in(0,n):0; if(vp_rnd()%8==0) sig=0; for(int i=0;i<n;i++){ do s[i]= i<sig?rc():' '; while(!s[i]); } }
#define B 200
static unsigned char s[B],d[B],o[B],e[B],z[B];
static void fill(unsigned char*x,int c){ memset(x,c,B); }
static const char*show(const unsigned char*x,int n){ static char b[8][4*B]; static int k; char*p=b[k++&7],*q=p; for(int i=0;i<n&&i<40;i++) q+=sprintf(q, x[i]>=32&&x[i]<127?"%c":"\\%03o",x[i]); return p; }
int main(){ vp_init(); long N=vp_thorough?2000000:200000;
  for(long it=0;it<N;it++){
    /* words <-> strings */
    int pd=vp_in(0,20), m=vp_in(-2,30), pf=pd+m-1, len=vp_in(0,30); if(pf<-1) pf=-1; int c= pf-pd+1; if(c<0)c=0; if(len<c)c=len;
    for(int i=0;i<B;i++){ s[i]=o[i]=rc(); d[i]=e[i]=0xEE; } int a=pd,b=pf;
    for(int i=0;i<c;i++) e[i]=s[(pd+i)^3]; r4astrg_((char*)d,(char*)s,&a,&b,len); VPCHECK(!memcmp(d,e,B)&&!memcmp(s,o,B),"r4astrg","posdeb=%d posfin=%d len=%d: got '%s' expected '%s'",pd,pf,len,show(d,len),show(e,len));
    for(int i=0;i<B;i++){ d[i]=e[i]=0xEE; } for(int i=0;i<c;i++) e[(pd+i)^3]=s[i]; strgr4a_((char*)s,(char*)d,&a,&b,len); VPCHECK(!memcmp(d,e,B)&&!memcmp(s,o,B),"strgr4a","posdeb=%d posfin=%d len=%d: words differ from the characters of '%s'",pd,pf,len,show(s,len));
    if(c){ fill(z,0x11); r4astrg_((char*)z,(char*)d,&a,&b,c); VPCHECK(!memcmp(z,s,c),"word-roundtrip","posdeb=%d posfin=%d len=%d: string does not come back",pd,pf,len); }
    /* C / Fortran strings */
    int n=vp_in(0,40),nc=vp_in(0,40); rtext(s,n); s[n]=0; fill(d,0xEE); cstring_to_fstring((char*)s,(char*)d,nc); for(int i=0;i<B;i++) e[i]= i>=nc?0xEE: i<n?s[i]:' '; VPCHECK(!memcmp(d,e,B),"c-to-fortran","'%s' into %d characters gives '%s'",show(s,n),nc,show(d,nc));
    n=vp_in(0,40); rtext(s,n); for(int rm=0;rm<2;rm++){ memcpy(o,s,B); unsigned char*hs=malloc(n); memcpy(hs,s,n); char*r=fstring_to_cstring((char*)hs,n,rm); free(hs); int t=n; if(rm) while(t>0&&s[t-1]==' ') t--; VPCHECK((int)strlen(r)==t&&!memcmp(r,s,t)&&!memcmp(o,s,B),"fortran-to-c","'%s' (%d, trim=%d) gives '%s'",show(s,n),n,rm,show((unsigned char*)r,strlen(r)>60?60:strlen(r))); free_cstring(r); }
    if(it%16==0){ int ns=vp_in(1,5); n=vp_in(1,12); rtext(s,n*ns); char**A=allocate_string_array(ns); int rm=vp_in(0,1); char **R=fill_string_array(A,(char*)s,n,ns,rm); int ok=R==A&&!A[ns]; for(int k=0;k<ns;k++){ int t=n; if(rm) while(t>0&&s[k*n+t-1]==' ') t--; ok=ok&&(int)strlen(A[k])==t&&!memcmp(A[k],s+k*n,t); } VPCHECK(ok,"string-array","array of %d strings of %d characters not converted",ns,n); free_string_array(A); }
    n=vp_in(1,40); rtext(s,n); if(vp_rnd()%3==0) for(int i=vp_in(0,n);i<n;i++) s[i]=vp_rnd()%2?0:' '; s[n]='X'; int t=n; while(t>0&&(s[t-1]==' '||!s[t-1])) t--; unsigned char*hs=malloc(n); memcpy(hs,s,n); unsigned fl=ftnStrLen((char*)hs,n); free(hs); VPCHECK(fl==(unsigned)t,"ftnStrLen","length of '%s' (%d) is %u, expected %d",show(s,n),n,fl,t);
    /* case */
    int l1=vp_in(0,30),l2=vp_in(0,30); for(int i=0;i<B;i++) s[i]=o[i]=rc(); for(int f=0;f<2;f++){ fill(d,0xEE); for(int i=0;i<B;i++){ int x= i>=l2?0xEE: i>=l1?' ':s[i]; if(i<l2&&i<l1){ if(f==0&&x>='A'&&x<='Z') x+=32; if(f==1&&x>='a'&&x<='z') x-=32; } e[i]=x; }
      (f?low2up_:up2low_)((char*)s,(char*)d,l1,l2); VPCHECK(!memcmp(d,e,B)&&!memcmp(s,o,B),"case","%s of '%s' into %d characters gives '%s'",f?"low2up":"up2low",show(s,l1),l2,show(d,l2)); }
    /* fst descriptor strings and narrow integers */
    l1=vp_in(1,30); l2=vp_in(0,30); fill(d,0xEE); str_cp_init((char*)d,l1,(char*)s,l2); for(int i=0;i<B;i++) e[i]= i>=l1?0xEE: i==l1-1?0: i<l2?s[i]:' '; VPCHECK(!memcmp(d,e,B),"str_cp_init","%d characters into %d",l2,l1);
    { int nb=vp_in(1,16), k=vp_in(0,20); int32_t v[24],w[24]; int16_t h[24]; int8_t c8[24],b8[24]; for(int i=0;i<24;i++){ v[i]=vp_r32()&((1u<<nb)-1); w[i]=77; h[i]=88; c8[i]=vp_r32(); b8[i]=99; }
      memcpy_32_16(h,v,nb,k); int ok=h[k]==88; memcpy_16_32(w,h,nb,k); ok=ok&&w[k]==77; for(int i=0;i<k;i++) ok=ok&&w[i]==v[i]; VPCHECK(ok,"int16-roundtrip","%d values of %d bits do not survive the 16-bit form (v[0]=%d -> %d)",k,nb,v[0],w[0]);
      for(int i=0;i<k;i++){ v[i]=vp_int32(); } memcpy_32_16(h,v,nb,k); ok=1; for(int i=0;i<k;i++) ok=ok&&(uint16_t)h[i]==(v[i]&((1u<<nb)-1)); VPCHECK(ok,"int16-mask","a 32-bit value is not reduced to its %d low-order bits",nb);
      for(int i=0;i<24;i++) h[i]=88; memcpy_8_16(h,c8,k); memcpy_16_8(b8,h,k); ok=h[k]==88&&b8[k]==99; for(int i=0;i<k;i++) ok=ok&&(uint8_t)h[i]==(uint8_t)c8[i]&&b8[i]==c8[i]; VPCHECK(ok,"int8-roundtrip","%d bytes do not survive the 16-bit form",k); }
    /* Hollerith */
    { int k=vp_in(0,4),lg=vp_in(0,6),mm=k<lg?k:lg; unsigned w=vp_int32(),w0=w; fill(d,0xEE); rah2char_((char*)d,(int*)&w,&k,lg); for(int i=0;i<B;i++) e[i]= i<mm?(w0>>(8*(mm-1-i)))&255:0xEE; VPCHECK(!memcmp(d,e,B)&&w==w0,"rah2char","word %#x, %d characters: got '%s' expected '%s'",w0,mm,show(d,mm),show(e,mm));
      for(int i=0;i<B;i++) s[i]=o[i]=rc(); unsigned x=w0; for(int i=0;i<mm;i++) x=x<<8|s[i]; w=w0; char2rah_((char*)s,(int*)&w,&k,lg); VPCHECK(w==x&&!memcmp(s,o,B),"char2rah","characters '%s' give %#x expected %#x",show(s,mm),w,x); }
    /* blank-padded copies */
    { n=vp_in(0,20); int ld=vp_in(0,20); z[0]='A'; z[1]=' '; z[2]=' '; unsigned char*src=z+3; memset(src,'Z',B-3); rtext(src,n); if(n&&vp_rnd()%2){ src[vp_in(0,n-1)]=0; } int pad="\0 *"[vp_rnd()%3]; int g=0; while(g<n&&src[g]) g++; t=g; while(t>0&&src[t-1]==' ') t--;
      int x=t>ld||(!pad&&t==ld)?-1:t; fill(d,0xEE); fill(e,0xEE); if(x>=0){ memcpy(e,src,t); if(pad) memset(e+t,pad,ld-t); else e[t]=0; } unsigned char*hs=malloc(n); memcpy(hs,src,n); int r=ftn2c_string_copy(hs,d,n,ld,pad); free(hs); VPCHECK(r==x&&!memcmp(d,e,B),"ftn2c-copy","'%s' (%d) into %d padded with %d returns %d expected %d, gives '%s'",show(src,n),n,ld,pad,r,x,show(d,ld));
      r=ftn2c_string_copy(src,0,n,ld,pad); VPCHECK(r==t,"ftn2c-length","'%s' (%d) has trimmed length %d, got %d",show(src,n),n,t,r); }
    if(it%16==0){ int ns=vp_in(1,4),l=vp_in(1,8); unsigned char*p[4],q[4][12]; rtext(s,ns*l); for(int k=0;k<ns;k++) p[k]=q[k]; memset(q,0xEE,sizeof q); int r=ftn2c_fstra_cstra(s,p,l,l+1,ns,0); int ok=r==0; for(int k=0;k<ns;k++){ int tt=l; while(tt>0&&s[k*l+tt-1]==' ') tt--; ok=ok&&!memcmp(q[k],s+k*l,tt)&&q[k][tt]==0; } VPCHECK(ok,"fstra-cstra","%d strings of %d characters",ns,l);
      fill(d,0xEE); r=ftn2c_cstra_fstra(p,d,l,l,ns,' '); VPCHECK(r==0&&!memcmp(d,s,ns*l)&&d[ns*l]==0xEE,"cstra-fstra","%d strings of %d characters do not come back",ns,l); }
  }
  return vp_done(); }
