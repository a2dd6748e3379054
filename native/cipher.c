#include "vp.h"
#include "arc4.h"
#include "md5.h"
int md5_file(char*,unsigned char*); void md5(unsigned char*,int,unsigned char*); void md5_hmac(unsigned char*,int,unsigned char*,int,unsigned char*); void md5_hmac_starts(md5_context*,unsigned char*,int); void md5_hmac_update(md5_context*,unsigned char*,int); void md5_hmac_finish(md5_context*,unsigned char*);
static struct { int n; char *md,*hm; } T[]={{0,"d41d8cd98f00b204e9800998ecf8427e","74e6f7298a9c2d168935f58c001bad88"},{1,"89e74e640b8c46257a29de0616794d5d","a80b82542726a25b496d7291143ee943"},{3,"0d97233d2358b4855c6ce730de6a9f68","1bd373d6a196fd866bec569c2a9850ff"},{55,"a240eb28343ff1b2e7cdfd6e9d52bf95","4c930b9e95f8758a0993e8614a718f14"},{56,"8f058000a248f045914578f9b43ecd8b","d1ca012dfdc5d4a1c72ce6af37d9462b"},{57,"5bf59c8b2c322670ae369c0aa46ddf7a","28aaa91b957415301f986c5b0021b906"},{63,"3c74f15d0060570129264bdf749739b8","9a562a348fd1fd30b1eb7bf635686892"},{64,"f8599b6adc56dfd033dbf026059b6df1","9f421120b0b1321f36afb214e620b916"},{65,"0ab530664fdb196fdbb631ac43a4236d","502236f162aff0dafcbd787f7ba3849a"},{119,"8c47dc9c60f11961cee70095bc755ae6","3cab7bf83242b2ddba05671922573a0a"},{120,"5b70cb90b0106354a6deda7516f2cae6","0d7f1a2b91c9bd0eb1a7b66f6fe4c5c8"},{127,"508cdfd65a96fb1a5dd276f07e13781a","8ef363c2ec466493c957bb85f271099e"},{128,"8f5c9d74918978e5efe64caf0d3e4417","3a518b97e39be84da9ce487adb41b48c"},{200,"9b3b922f40a6ac56b1211340e1d41e4c","d342c85df88e2a645622d6db6fc514bb"},{1000,"a7fc722728d8c05b019a09d8692a0164","4c1f27183b0e4090dd15b555dcfa718e"}};
static void hex(unsigned char*o,char*s){ for(int i=0;i<16;i++) sprintf(s+2*i,"%02x",o[i]); }
typedef struct { int x,y; unsigned char m[256]; } R;
static void rset(R*r,unsigned char*k,int n){ int j=0; for(int i=0;i<256;i++) r->m[i]=i; for(int i=0;i<256;i++){ j=(j+r->m[i]+k[i%n])&255; unsigned char t=r->m[i]; r->m[i]=r->m[j]; r->m[j]=t; } r->x=r->y=0; }
static unsigned char rgen(R*r){ r->x=(r->x+1)&255; r->y=(r->y+r->m[r->x])&255; unsigned char t=r->m[r->x]; r->m[r->x]=r->m[r->y]; r->m[r->y]=t; return r->m[(r->m[r->x]+r->m[r->y])&255]; }
int main(void){ vp_init(); unsigned char o[16],d2[16]; char s[40];
  for(unsigned i=0;i<sizeof T/sizeof*T;i++){ int n=T[i].n; unsigned char *d=malloc(n+1),*k=malloc(200); for(int j=0;j<n;j++) d[j]=j*131+n*7; for(int j=0;j<n%150;j++) k[j]=j*37+n; md5(d,n,o); hex(o,s); VPCHECK(!strcmp(s,T[i].md),"md5","digest of %d bytes is %s, expected %s",n,s,T[i].md);
    md5_hmac(k,n%150,d,n,o); hex(o,s); VPCHECK(!strcmp(s,T[i].hm),"hmac","keyed digest of %d bytes, key of %d, is %s, expected %s",n,n%150,s,T[i].hm); FILE*f=fopen("vp_md5_scratch","wb"); fwrite(d,1,n,f); fclose(f); VPCHECK(md5_file("vp_md5_scratch",o)==0,"file","md5_file fails on %d bytes",n); hex(o,s); VPCHECK(!strcmp(s,T[i].md),"file","file digest of %d bytes is %s, expected %s",n,s,T[i].md); remove("vp_md5_scratch"); free(d); free(k); }
  { FILE*f=fopen("vp_md5_scratch","wb"); unsigned char b[5000]; for(int i=0;i<5000;i++) b[i]=i*i; fwrite(b,1,5000,f); fclose(f); md5(b,5000,o); md5_file("vp_md5_scratch",d2); VPCHECK(!memcmp(o,d2,16),"file","file digest of 5000 bytes differs from the digest in memory"); remove("vp_md5_scratch"); }
  for(int t=0;t<(vp_thorough?100000:4000);t++){ int n=vp_in(0,t%40?200:9000); unsigned char *d=malloc(n+1),*e; for(int i=0;i<n;i++) d[i]=vp_rnd(); md5(d,n,o);
    md5_context c; md5_starts(&c); int p=0; while(p<n){ int m=vp_in(0,vp_in(0,1)?70:n-p); if(m>n-p) m=n-p; unsigned char *x=malloc(m+(m==0)); memcpy(x,d+p,m); md5_update(&c,x,m); memset(x,0xee,m); free(x); p+=m; } md5_finish(&c,d2); VPCHECK(!memcmp(o,d2,16),"pieces","digest of %d bytes depends on how they are cut",n);
    int kl=vp_in(1,t%3?20:300); unsigned char *k=malloc(kl); for(int i=0;i<kl;i++) k[i]=vp_rnd(); md5_hmac(k,kl,d,n,o); md5_hmac_starts(&c,k,kl); int h=vp_in(0,n); md5_hmac_update(&c,d,h); md5_hmac_update(&c,d+h,n-h); md5_hmac_finish(&c,d2); VPCHECK(!memcmp(o,d2,16),"hmac-pieces","keyed digest depends on how the data are cut (%d+%d)",h,n-h);
    arc4_context a,b; R r; e=malloc(n+1); memcpy(e,d,n); arc4_setup(&a,k,kl); rset(&r,k,kl); for(int i=0;i<1024;i++) rgen(&r); p=0; while(p<n){ int m=vp_in(0,n-p); if(m>50) m=vp_in(0,m); unsigned char *x=malloc(m+(m==0)); memcpy(x,e+p,m); arc4_crypt(&a,x,m); memcpy(e+p,x,m); free(x); p+=m; }
    for(int i=0;i<n;i++) if(e[i]!=(d[i]^rgen(&r))){ vp_fail("cipher","byte %d of %d (key of %d bytes) is not the standard cipher",i,n,kl); break; } vp_evals++;
    arc4_setup(&b,k,kl); arc4_crypt(&b,e,n); VPCHECK(!memcmp(e,d,n),"decrypt","decryption of %d bytes (key of %d) does not return the message",n,kl); free(d); free(e); free(k); }
  /* very long messages: the byte count carries into its second word; the padding block holds the bit count */
  for(int i=1;i<200;i++){ unsigned char d[400]; md5_context c,e; for(int j=0;j<400;j++) d[j]=vp_rnd(); md5_starts(&c); c.total[0]=0xFFFFFFC0u; e=c; md5_update(&c,d,64+i); int q=vp_in(0,64+i); md5_update(&e,d,q); md5_update(&e,d+q,64+i-q); VPCHECK(c.total[0]==(unsigned)i&&c.total[1]==1&&e.total[0]==(unsigned)i&&e.total[1]==1,"count","byte count of a message of 2**32+%d bytes is %lu*2**32+%lu in one piece, %lu*2**32+%lu in two",i,(unsigned long)c.total[1],(unsigned long)c.total[0],(unsigned long)e.total[1],(unsigned long)e.total[0]); md5_finish(&c,o); md5_finish(&e,d2); VPCHECK(!memcmp(o,d2,16),"long-pieces","digest of a message of 2**32+%d bytes depends on how it is cut",i); }
  return vp_done(); }
