#include "vp.h"
uint32_t update_crc_ne(uint32_t,int,void*,int,int,int); uint32_t f_update_crc_ne(uint32_t*,int*,void*,int*,int*,int*); unsigned f_crc32(unsigned*,const unsigned char*,unsigned*);
static uint32_t step(int w,uint32_t c,unsigned char b){ int i; if(w==24){ c^=(uint32_t)b<<16; for(i=0;i<8;i++) c=(c&0x800000)?((c<<1)^0x864CFB)&0xffffff:c<<1; return c&0xffffff; } uint32_t p=w==16?0xA001:0xEDB88320u; c^=b; for(i=0;i<8;i++) c=(c&1)?(c>>1)^p:c>>1; return c; }
static uint32_t ref(int w,uint32_t c,unsigned char*d,int sz,int n){ for(int i=0;i<n;i++) for(int j=0;j<sz;j++) c=step(w,c,d[i*sz+(sz-1-j)]); return c; }
static uint32_t run(uint32_t c,int w,void*d,int sz,int n,int mode){ if(vp_rnd()&1) return update_crc_ne(c,w,d,sz,n,mode); return f_update_crc_ne(&c,&w,d,&sz,&n,&mode); }
int main(void){ vp_init(); static unsigned char d[8*600]; int ws[]={16,24,32},szs[]={1,2,4,8};
  unsigned char chk[]="123456789";
  uint32_t k; k=run(0,16,chk,1,9,0); VPCHECK(k==0xBB3D,"vector","crc16 of 123456789 is %x, expected bb3d",k); k=run(0,24,chk,1,9,0); VPCHECK(k==0x21CF02,"vector","crc24 of 123456789 is %x",k); k=run(run(0,32,chk,1,9,0),32,chk,1,0,2); VPCHECK(k==0xCBF43926u,"vector","crc32 of 123456789 is %x",k);
  unsigned z=0,n9=9; k=f_crc32(&z,chk,&n9); VPCHECK(k==0xCBF43926u,"vector","f_crc32 of 123456789 is %x",k);
  for(int w=0;w<3;w++) for(int b=0;b<256;b++) for(int r=0;r<40;r++){ uint32_t lim=ws[w]==16?0xffff:ws[w]==24?0xffffff:0xffffffffu,c=vp_r32()&lim; unsigned char x=b; uint32_t g=run(c,ws[w],&x,1,1,1); VPCHECK(g==step(ws[w],c,x),"step","crc%d of %x after byte %x is %x, expected %x",ws[w],c,b,g,step(ws[w],c,x)); }
  for(int t=0;t<(vp_thorough?200000:8000);t++){ int w=ws[vp_in(0,2)],sz=szs[vp_in(0,3)],n=vp_in(0,t%50?40:600); uint32_t lim=w==16?0xffff:w==24?0xffffff:0xffffffffu,init=w==16?0:w==24?0xb704ce:0xffffffffu; for(int i=0;i<sz*n;i++) d[i]=vp_rnd();
    uint32_t e=ref(w,init,d,sz,n),g=run(vp_r32(),w,d,sz,n,0); VPCHECK(g==e,"one-pass","crc%d of %d tokens of %d bytes is %x, expected %x",w,n,sz,g,e);
    int a=vp_in(0,n); uint32_t p=run(run(0,w,d,sz,a,0),w,d+a*sz,sz,n-a,1); VPCHECK(p==e,"pieces","crc%d of %d tokens of %d bytes in pieces %d+%d is %x, expected %x",w,n,sz,a,n-a,p,e);
    p=run(run(0,w,d,sz,a,0),w,d+a*sz,sz,n-a,2); VPCHECK(p==(w==32?~e:e),"final","crc%d finalised is %x, expected %x",w,p,w==32?~e:e);
    if(n){ int i=vp_in(0,sz*n-1); d[i]^=vp_in(1,255); p=run(0,w,d,sz,n,0); VPCHECK(p!=e,"change","crc%d does not see a change of byte %d of %d",w,i,sz*n); }
    unsigned c=vp_r32(),c0=c,m=sz*n; unsigned q=~ref(32,~c,d,1,m),y=f_crc32(&c,d,&m); VPCHECK(y==q,"zlib","f_crc32 of %u bytes is %x, expected %x",m,y,q); unsigned m1=vp_in(0,m),m2=m-m1; c=c0; unsigned h=f_crc32(&c,d,&m1); h=f_crc32(&h,d+m1,&m2); VPCHECK(h==q,"zlib-pieces","f_crc32 in pieces %u+%u is %x, expected %x",m1,m2,h,q);
  }
  return vp_done(); }
