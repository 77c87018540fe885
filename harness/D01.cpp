// D01: file names.
// BOUND: paths of 0..7 (thorough: 0..9) arbitrary non-zero bytes; new names and extensions of 0..3 arbitrary non-zero bytes (names without separator, extensions beginning with a dot); two paths of 0..4 bytes for comparison of base names
// BOUND: concrete paths with directories and base names of up to 255 bytes and extensions of 0, 7 and 14, one byte of them (ends and middle of the parts) arbitrary; new names and extensions of up to 255 bytes with one arbitrary byte
// OUTSIDE: longer paths with more arbitrary bytes; operations that ask the file system or APR's path merging (isExistent, getFileSize, normalize, determinePath, the constructor with a separate directory). In the symbolic build APR's apr_pstrdup, apr_pstrcat, apr_filepath_name_get and apr_filepath_root are stand-ins with the behaviour of their Unix versions; the native replays use APR
#include "symx.h"
#include <string.h>
#include <stdlib.h>
#include <apr_file_info.h>
#include <apr_strings.h>
#ifdef SYMX_SYMBOLIC
static char* sx_pstrdup(apr_pool_t*,const char* s){ if(!s) return NULL; size_t n=strlen(s); char* d=(char*)malloc(n+1); for(size_t i=0;i<=n;++i) d[i]=s[i]; return d; }
static void sx_cat(char*& d,const char* s){ for(;*s;++s) *d++=*s; }
static char* sx_pstrcat(apr_pool_t*,const char* a=0,const char* b=0,const char* c=0,const char* e=0){ const char* v[4]={a,b,c,e}; size_t n=1; for(int i=0;i<4&&v[i];++i) n+=strlen(v[i]); char* r=(char*)malloc(n),*p=r; for(int i=0;i<4&&v[i];++i) sx_cat(p,v[i]); *p=0; return r; }
static const char* sx_name(const char* s){ const char* r=s; for(const char* p=s;*p;++p) if(*p=='/') r=p+1; return (const char*)symx_pin((uint64_t)r); }
static apr_status_t sx_root(const char** root,const char** p,apr_int32_t,apr_pool_t*){ const char* s=*p; if(*s!='/') return APR_ERELATIVE; *root="/"; while(*s=='/') ++s; *p=s; return APR_SUCCESS; }
#define apr_pstrdup sx_pstrdup
#define apr_pstrcat sx_pstrcat
#define apr_filepath_name_get sx_name
#define apr_filepath_root sx_root
#endif
#include <uima/filename.hpp>
#include <uima/location.hpp>
#include "cascommon.hpp"
using uima::util::Filename; using uima::util::Location;
struct P { char c[16]; int n; };
static void mk(P& p,const char* nme,int lo,int hi){ memset(&p,0,sizeof p); p.n=lo+sx_choose(nm(nme,0,"n"),hi-lo+1); for(int i=0;i<p.n;++i){ unsigned v=sx_u8(nm(nme,i,"c"))^0x61u; symx_assume(v!=0); p.c[i]=(char)v; } }
static bool eq(const char* s,const char* p,int n){ if((int)strlen(s)!=n) return false; unsigned d=0; for(int i=0;i<n;++i) d|=(unsigned)(unsigned char)(s[i]^p[i]); return d==0; }
// the slices: [0,b) directory with separator, [b,e) base name, [e,n) extension with dot
static void slices(P const& p,int& b,int& e){ b=0; for(int i=0;i<p.n;++i) if(p.c[i]=='/') b=i+1; e=p.n; for(int i=b;i<p.n;++i) if(p.c[i]=='.') e=i; }
static void parts(Filename const& f,P const& p){ int b,e; slices(p,b,e); SX_ASSERT(eq(f.getAsCString(),p.c,p.n),"text"); SX_ASSERT(eq((const char*)f,p.c,p.n)&&f.getLength()==(size_t)p.n,"length"); SX_ASSERT(eq(f.getName(),p.c+b,p.n-b),"name"); SX_ASSERT(eq(f.getExtension(),p.c+e,p.n-e),"extension"); char* d=(char*)malloc(p.n+1),*s=(char*)malloc(p.n+1); memset(d,'#',p.n+1); memset(s,'#',p.n+1); f.extractPath(d); f.extractBaseName(s); SX_ASSERT(eq(d,p.c,b),"directory"); SX_ASSERT(eq(s,p.c+b,e-b),"base name");
  Filename g; g.setNew(d,s,f.getExtension()); SX_ASSERT(eq(g.getAsCString(),p.c,p.n),"recombined"); SX_ASSERT(f.isAbsolute()==(p.n>0&&p.c[0]=='/'),"absolute"); free(d); free(s); if(b>0&&e<p.n) symx_reached("all parts"); }
static P mp(const char* a,int n,const char* b,int m){ P r; memset(&r,0,sizeof r); int k=0; for(int i=0;i<n;++i) r.c[k++]=a[i]; for(int i=0;i<m;++i) r.c[k++]=b[i]; r.n=k; return r; }
static void setup(){ hResMgr(); }
SYMX_SCENARIO_SETUP(parts_,setup){ P p; mk(p,"p",0,symx_thorough()?9:7); Filename f(p.c); parts(f,p); Filename g(f); SX_ASSERT(eq(g.getAsCString(),p.c,p.n),"copy"); Filename h("zz"); h=f; SX_ASSERT(eq(h.getAsCString(),p.c,p.n),"assigned"); }
SYMX_SCENARIO_SETUP(new_name,setup){ P p,q; mk(p,"p",0,4); mk(q,"q",0,3); for(int i=0;i<q.n;++i) symx_assume(q.c[i]!='/'); Filename f(p.c); f.setNewName(q.c); int b,e; slices(p,b,e); P r=mp(p.c,b,q.c,q.n); parts(f,r); if(q.n>p.n-b) symx_reached("longer name"); }
SYMX_SCENARIO_SETUP(new_extension,setup){ P p,q; mk(p,"p",0,4); mk(q,"q",1,3); for(int i=0;i<q.n;++i) symx_assume(q.c[i]!='/'); symx_assume(q.c[0]=='.'); Filename f(p.c); f.setNewExtension(q.c); int b,e; slices(p,b,e); P r=mp(p.c,e,q.c,q.n); SX_ASSERT(eq(f.getAsCString(),r.c,r.n),"new extension"); f.setNewExtension(NULL); SX_ASSERT(eq(f.getAsCString(),r.c,r.n),"no extension given"); if(q.n>p.n-e&&e<p.n) symx_reached("longer extension"); }
SYMX_SCENARIO_SETUP(same_base,setup){ P p,q; mk(p,"p",0,4); mk(q,"q",0,3); int b,e,c,g; slices(p,b,e); slices(q,c,g); unsigned d= e-b!=g-c; if(!d) for(int i=0;i<e-b;++i) d|=(unsigned)(unsigned char)(p.c[b+i]^q.c[c+i]); Filename f(p.c),h(q.c); SX_ASSERT(f.matchesBase(h)==(d==0),"same base name"); if(d==0&&e>b) symx_reached("same"); }
SYMX_SCENARIO_SETUP(location,setup){ P p; mk(p,"p",0,4); Location l(p.c); P r=mp(p.c,p.n,"/",1); SX_ASSERT(eq(l.getAsCString(),r.c,r.n)&&eq((const char*)l,r.c,r.n),"directory text"); SX_ASSERT(l.isAbsolute()==(r.c[0]=='/'),"absolute"); Location m("x"); m=l; SX_ASSERT(eq(m.getAsCString(),r.c,r.n),"assigned"); symx_reached("location"); }
SYMX_SCENARIO_SETUP(unset,setup){ Filename f; SX_ASSERT(f.getAsCString()==NULL&&f.getName()==NULL&&f.getExtension()==NULL&&f.getLength()==0,"unset"); Filename g("a"); SX_ASSERT(!f.matchesBase(g)&&!g.matchesBase(f),"unset matches nothing"); symx_reached("unset"); }
// longer paths: concrete around one symbolic byte
static const int LN[]={12,15,16,31,64,100,127,200,255};
struct LP { char* c; int n,b,e; };
static LP lp(const char* tag,int dl,int bl,int el,int at,char q){ LP p={}; p.n=dl+bl+el; p.c=(char*)malloc(p.n+1); for(int i=0;i<p.n;++i) p.c[i]=i<dl?(i%16==0||i==dl-1?'/':(char)('a'+i%26)):i<dl+bl?(char)('A'+i%26):i==dl+bl?'.':(char)('0'+i%10); if(at>=0) p.c[at]=q; p.c[p.n]=0; for(int i=0;i<p.n;++i) if(p.c[i]=='/') p.b=i+1; p.b=(int)symx_pin((uint64_t)p.b); p.e=p.n; for(int i=p.b;i<p.n;++i) if(p.c[i]=='.') p.e=i; p.e=(int)symx_pin((uint64_t)p.e); (void)tag; return p; }
static void lparts(Filename const& f,LP const& p){ SX_ASSERT(eq(f.getAsCString(),p.c,p.n)&&f.getLength()==(size_t)p.n,"text of a longer path"); SX_ASSERT(eq(f.getName(),p.c+p.b,p.n-p.b)&&eq(f.getExtension(),p.c+p.e,p.n-p.e),"name and extension of a longer path"); char* d=(char*)malloc(p.n+1),*s=(char*)malloc(p.n+1); memset(d,'#',p.n+1); memset(s,'#',p.n+1); f.extractPath(d); f.extractBaseName(s); SX_ASSERT(eq(d,p.c,p.b)&&eq(s,p.c+p.b,p.e-p.b),"directory and base name of a longer path"); Filename g; g.setNew(d,s,f.getExtension()); SX_ASSERT(eq(g.getAsCString(),p.c,p.n),"recombined"); free(d); free(s); }
static char qb(const char* n){ int k=sx_choose(nm(n,0,"k"),3); if(k) return k==1?'/':'.'; unsigned v=sx_u8(n)^0x61u; symx_assume((unsigned)(v!=0)&(unsigned)(v!='/')&(unsigned)(v!='.')); return (char)v; }
SYMX_SCENARIO_SETUP(longer,setup){ int dl=LN[sx_choose("d",9)],bl=sx_choose("b",2)?LN[sx_choose("bl",9)]:3,el=sx_choose("e",3)*7; int w=sx_choose("at",4),at=w==0?dl-1:w==1?dl/2:w==2?dl+bl-1:dl+bl+el-1; LP p=lp("p",dl,bl,el,at,qb("q")); Filename f(p.c); lparts(f,p); Filename g(f); Filename h("zz"); h=f; SX_ASSERT(eq(g.getAsCString(),p.c,p.n)&&eq(h.getAsCString(),p.c,p.n)&&g.matchesBase(h),"copies"); if(p.e<p.n&&p.b>0) symx_reached("all parts"); }
SYMX_SCENARIO_SETUP(longer_new,setup){ int dl=sx_choose("d",3)*40,bl=LN[sx_choose("bl",9)],el=sx_choose("e",2)*5; LP p=lp("p",dl,bl,el,-1,0); int nl=LN[sx_choose("nl",9)]; char* q=(char*)malloc(nl+1); for(int i=0;i<nl;++i) q[i]=(char)('n'+i%9); q[nl]=0; char x=qb("q"); symx_assume(x!='/'); q[nl/2]=x; bool ext=sx_choose("ext",2); if(ext) q[0]='.'; Filename f(p.c); int keep=ext?p.e:p.b; LP r={}; r.n=keep+nl; r.c=(char*)malloc(r.n+1); for(int i=0;i<keep;++i) r.c[i]=p.c[i]; for(int i=0;i<=nl;++i) r.c[keep+i]=q[i]; if(ext) f.setNewExtension(q); else f.setNewName(q); SX_ASSERT(eq(f.getAsCString(),r.c,r.n),"a longer name or extension set"); for(int i=0;i<r.n;++i) if(r.c[i]=='/') r.b=i+1; r.b=(int)symx_pin((uint64_t)r.b); r.e=r.n; for(int i=r.b;i<r.n;++i) if(r.c[i]=='.') r.e=i; r.e=(int)symx_pin((uint64_t)r.e); lparts(f,r); Location l(p.c); SX_ASSERT((int)strlen(l.getAsCString())==p.n+(p.c[p.n-1]=='/'?0:1),"directory"); symx_reached("renamed"); }
