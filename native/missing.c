#include "vp.h"
int EncodeMissingValue(void*,const void*,int,int,int,int,int,int); void DecodeMissingValue(void*,int,int,int,int,int); int encode_missing_value(void*,const void*,const int*,const int*,const int*,const int*,const int*,const int*); void decode_missing_value(void*,const int*,const int*,const int*,const int*,const int*);
void set_missing_value_flags(float*,int*,unsigned*,double*,short*,unsigned short*,signed char*,unsigned char*); int get_missing_value_flags(float*,int*,unsigned*,double*,short*,unsigned short*,signed char*,unsigned char*); int ForceMissingValueUsage(int); int missing_value_used(void); void RestoreMissingValueMapping(void);
static float F; static int I; static unsigned U; static double D; static short S; static unsigned short US; static signed char C; static unsigned char UC;
static const char*NM[]={"float","double","int","short","byte","uint","ushort","ubyte"};
#define T(ix,ty,mv,dt,isb,iss,isd,B,SG,GEN,FMT) \
  for(long it=0;it<N;it++){ int n=vp_in(1,it%4?6:60); ty*s=malloc(n*sizeof(ty)),*d=malloc(n*sizeof(ty)),*o=malloc(n*sizeof(ty)),*e=malloc(n*sizeof(ty)); int nb= B? vp_in(SG?2:1,it%3?B:64>32?32:B):vp_in(1,32); int eb=B&&nb>B?B:nb; \
    double cap= B? (SG? (double)((1ULL<<(eb-1))-1) : (double)((1ULL<<eb)-1)) : 1e300; int mode=vp_in(0,6); int cnt=0; ty base=GEN; \
    for(int i=0;i<n;i++){ ty v; int tries=0; do { v= mode==0? base : mode==1&&B? (ty)(cap-1-vp_in(0,3)) : GEN; if(++tries>50) v=(ty)0; } while(((double)v>=cap||v==mv)&&tries<=50); if(v==mv||(double)v>=cap) v=mv; s[i]=v; if(mode==2? i==0 : mode==3? i==n-1 : mode==4? 1 : mode==5? 0 : vp_rnd()%3==0) s[i]=mv; cnt+=s[i]==mv; d[i]=e[i]=(ty)5; } memcpy(o,s,n*sizeof(ty)); \
    int dtp=dt+ (vp_rnd()%2?64:0); int r= it&1? EncodeMissingValue(d,s,n,dtp,nb,isb,iss,isd) : ({int i_b=isb,i_s=iss,i_d=isd; encode_missing_value(d,s,&n,&dtp,&nb,&i_b,&i_s,&i_d);}); \
    vp_evals++; if(memcmp(s,o,n*sizeof(ty))) vp_fail("source","%s: the source field is modified",NM[ix]); \
    if(r!=cnt){ vp_fail("count","%s: %d missing values reported, there are %d of %d (nbits=%d)",NM[ix],r,cnt,n,nb); } \
    else if(cnt==0){ if(memcmp(d,e,n*sizeof(ty))) vp_fail("untouched","%s: field without missing values, yet the destination is written",NM[ix]); } \
    else { ty plug=0; int bad=0; for(int i=0;i<n;i++) if(o[i]==mv) plug=d[i]; for(int i=0;i<n&&!bad;i++){ if(o[i]==mv? d[i]!=plug : (d[i]!=o[i]||!(d[i]<plug))){ bad=1; vp_fail("code","%s (nbits=%d): element %d of %d: " FMT " encoded as " FMT ", missing code " FMT,NM[ix],nb,i,n,o[i],d[i],plug); } } \
      if(!bad){ if(it&2) DecodeMissingValue(d,n,dtp,isb,iss,isd); else { int i_b=isb,i_s=iss,i_d=isd; decode_missing_value(d,&n,&dtp,&i_b,&i_s,&i_d); } for(int i=0;i<n;i++) if(d[i]!=o[i]){ vp_fail("roundtrip","%s (nbits=%d): element %d of %d: " FMT " comes back as " FMT,NM[ix],nb,i,n,o[i],d[i]); break; } } } \
    free(s); free(d); free(o); free(e); if(vp_nfail>6) return 0; }
static float gf(void){ union{uint32_t u;float f;}x; switch(vp_rnd()%4){ case 0: return vp_in(-5,5); case 1: return -1e6f+vp_in(0,100); case 2: return 273.15f+vp_in(0,10)*1e-4f; default: do x.u=vp_r32(); while(!(x.f-x.f==0)||fabsf(x.f)>1e37f); return x.f; } }
static double gd(void){ union{uint64_t u;double f;}x; switch(vp_rnd()%4){ case 0: return vp_in(-5,5); case 1: return -1e12+vp_in(0,100); case 2: return 273.15+vp_in(0,10)*1e-9; default: do x.u=vp_rnd(); while(!(x.f-x.f==0)||fabs(x.f)>1e299); return x.f; } }
int main(){ vp_init(); unsetenv("MISSING_VALUE_FLAGS"); unsetenv("MISSING_VALUE_PLUGINS");
  { float s[3]={1,2,-1e38f},d[3]={7,7,7}; int r=EncodeMissingValue(d,s,3,1,16,0,0,0); VPCHECK(r==0&&d[0]==7&&missing_value_used()==0,"mode-off","the package is not inactive by default"); }
  ForceMissingValueUsage(1); VPCHECK(missing_value_used()==1,"mode-on","the package cannot be activated");
  long N=vp_thorough?400000:40000;
  for(int round=0;round<2;round++){
    if(round){ F=999.0f; I=-7; U=100; D=-0.5; S=1234; US=77; C=-1; UC=0; set_missing_value_flags(&F,&I,&U,&D,&S,&US,&C,&UC); }
    { float a; int b; unsigned c; double e; short f; unsigned short g; signed char h; unsigned char i; get_missing_value_flags(&a,&b,&c,&e,&f,&g,&h,&i); if(round) VPCHECK(a==F&&b==I&&c==U&&e==D&&f==S&&g==US&&h==C&&i==UC,"flags","missing value flags are not those set"); F=a;I=b;U=c;D=e;S=f;US=g;C=h;UC=i;
      if(!round) VPCHECK(a==-1.0E+38f&&b==INT_MIN&&c==0xFFFFFFFFu&&e==-1.0E+38&&f==-32768&&g==65535&&h==-128&&i==255,"defaults","default missing values changed"); }
    T(0,float,F,(it%3==0?1:it%3==1?5:6),0,0,0,0,1,gf(),"%g")
    T(1,double,D,(it%2?1:5),0,0,1,0,1,gd(),"%g")
    T(2,int,I,4,0,0,0,32,1,((int)vp_int32()>>vp_in(0,31)),"%d")
    T(3,short,S,4,0,1,0,16,1,((short)vp_int32()>>vp_in(0,15)),"%d")
    T(4,signed char,C,4,1,0,0,8,1,((signed char)vp_int32()>>vp_in(0,7)),"%d")
    T(5,unsigned int,U,2,0,0,0,32,0,(vp_int32()>>vp_in(0,31)),"%u")
    T(6,unsigned short,US,2,0,1,0,16,0,((unsigned short)vp_int32()>>vp_in(0,15)),"%u")
    T(7,unsigned char,UC,2,1,0,0,8,0,((unsigned char)vp_int32()>>vp_in(0,7)),"%u")
  }
  /* transparent, character and complex data are left alone */
  for(int k=0;k<4;k++){ int dt=(int[]){0,3,7,8}[k]; int s[4]={I,1,2,I},d[4]={9,9,9,9}; VPCHECK(EncodeMissingValue(d,s,4,dt,32,0,0,0)==0&&d[0]==9,"other-types","data type %d is altered",dt); DecodeMissingValue(s,4,dt,0,0,0); VPCHECK(s[0]==I&&s[2]==2,"other-types","data type %d is altered by decoding",dt); }
  return vp_done(); }
