// C04: strings stored in the CAS.
// BOUND: every history of 3 (thorough: 4) writes of strings of 0..3 code units (every non-zero UTF-16 code unit) to five places (a string feature of two feature structures, two string array elements, the head of a string list), all places read back after every write; strings of 0..4 code units offered to a restricted string type (four declared values, one a prefix of another, one empty); strings taken from the CAS and stored again, and writes of up to 3+7 code units, over string heaps of initial capacity 4..12 so that every growth boundary is crossed
// BOUND: strings of 13 lengths from 15 to 4100 units (one of three units any value) written to one of five places, copied to another and replaced, with the string heap large or small; 60 strings of 1..8 units
// OUTSIDE: strings of other lengths, more writes; strings with embedded U+0000 in the main scenarios (see the known finding)
#include "cascommon.hpp"
using namespace full;
static ll::TyFSType Kind; static ll::TyFSFeature kind;
static void ty(HDef& D){ types(D); std::vector<icu::UnicodeString> v; v.push_back(US("ab")); v.push_back(US("a")); v.push_back(US("")); v.push_back(US("xyz")); Kind=D.ts().createStringSubtype(US("T.Kind"),v,US("h")); kind=D.feat(A,Kind,"kind"); }
static void setup(){ hSetup(ty,nullptr); }
struct S { char16_t c[12]; int n; bool set; };
static S inS(const char* p,int w,int lo,int hi){ S s; s.set=true; s.n=lo+sx_choose(nm(p,w,"n"),hi-lo+1); for(int i=0;i<s.n;++i){ s.c[i]=sx_unit(nm(p,w*12+i,"c")); } return s; }
// the source buffer is clobbered after every write, so that a stored reference to it would show
static char16_t* scratch; static UnicodeStringRef tmp(S const& s){ if(!scratch) scratch=new char16_t[16]; memcpy(scratch,s.c,2*s.n); return UnicodeStringRef(scratch,s.n); }
static void clobber(){ for(int i=0;i<12;++i) scratch[i]=0x2603; }
struct Places { FeatureStructure f[2]; StringArrayFS a; StringListFS l; S m[5];
  Places(CAS* c){ for(int i=0;i<2;++i) f[i]=c->createFS(hT(A)); a=c->createStringArrayFS(2); l=c->createStringListFS(); S e; memset(&e,0,sizeof e); tmp(e); l=l.addFirst(tmp(e)); for(int i=0;i<5;++i) m[i]=e; m[4].set=true; }
  UnicodeStringRef get(int i){ return i<2?f[i].getStringValue(hF(s)):i<4?a.get(i-2):l.getHead(); }
  void put(int i,UnicodeStringRef r){ if(i<2) f[i].setStringValue(hF(s),r); else if(i<4) a.set(i-2,r); else l.setHead(r); }
  void check(){ for(int i=0;i<5;++i){ UnicodeStringRef r=get(i); SX_ASSERT((r.getBuffer()!=NULL)==m[i].set,"empty and unset differ"); SX_ASSERT((int)r.length()==m[i].n&&(int)r.getSizeInBytes()==2*m[i].n,"length"); SX_ASSERT(eqU(r,m[i].c,m[i].n),"code units"); symx_observe(r.length()); for(unsigned k=0;k<r.length()&&k<12;++k) symx_observe(r.getBuffer()[k]); if(i<2) SX_ASSERT(f[i].isUntouchedFSValue(hF(s))==!m[i].set,"untouched"); } } };
SYMX_SCENARIO_SETUP(history,setup){ Places p(g_cas); p.check(); int W=symx_thorough()?4:3;
  for(int w=0;w<W;++w){ int k=sx_choose(NM("k",w),5); S v=inS("v",w,0,w==0?3:w==1?2:1); p.put(k,tmp(v)); clobber(); p.m[k]=v; p.check(); } symx_reached("history"); }
// capacity of the string heap small: every page boundary is crossed
static CAS* small(int cells,int refs){ CAS* b=new uima::internal::CASImpl(*g_def,(size_t)64,(size_t)cells,(size_t)refs); return b->getInitialView(); }
SYMX_SCENARIO_SETUP(growth,setup){ int c=4+sx_choose("cells",9); CAS* t=small(c,2+sx_choose("refs",3)); Places p(t); for(int w=0;w<3;++w){ S v=inS("v",w,w==1?0:1,w==2?7:3); p.put(w+1,tmp(v)); clobber(); p.m[w+1]=v; p.check(); } symx_reached("growth"); }
SYMX_SCENARIO_SETUP(recopy,setup){ int c=4+sx_choose("cells",9); CAS* t=small(c,4); Places p(t); S v=inS("v",0,0,4); p.put(0,tmp(v)); clobber(); p.m[0]=v; int how=sx_choose("how",3);
  if(how==0){ for(int i=1;i<5;++i){ p.put(i,p.get(i-1)); p.m[i]=p.m[i-1]; p.check(); } }
  else if(how==1){ for(int i=0;i<4;++i){ p.put(0,p.get(0)); p.check(); } }
  else { UnicodeStringRef r=p.get(0); int off=sx_choose("off",v.n+1); UnicodeStringRef q(r.getBuffer()+off,v.n-off); p.put(2,q); p.m[2]=v; p.m[2].n=v.n-off; memmove(p.m[2].c,v.c+off,2*(v.n-off)); p.check(); }
  symx_reached("recopy"); }
static const char16_t* VAL[2][4]={ {u"ab",u"a",u"",u"xyz"}, {u"ab",u"c",u"abd",0} }; static const int VLN[2][4]={ {2,1,0,3},{2,1,3,-1} };
static bool allowed(int t,S const& v){ bool r=false; for(int i=0;i<4;++i) if(VLN[t][i]==v.n){ unsigned d=0; for(int k=0;k<v.n;++k) d|=(unsigned)(VAL[t][i][k]^v.c[k]); r=r|(d==0); } return r; }
SYMX_SCENARIO_SETUP(restricted,setup){ FeatureStructure f=g_cas->createFS(hT(D)),g=g_cas->createFS(hT(A)); S cur[2]; memset(cur,0,sizeof cur);
  for(int w=0;w<(symx_thorough()?3:2);++w){ int t=sx_choose(NM("t",w),2); Feature F=hF(t?sub:kind); S v=inS("v",w,0,4); UnicodeStringRef r=tmp(v); bool th=throwsUima([&]{ f.setStringValue(F,r); }); clobber(); bool ok=allowed(t,v); SX_ASSERT(th==!ok,"accepted exactly when declared"); if(!th){ cur[t]=v; symx_reached("accepted"); } else symx_reached("rejected");
    for(int q=0;q<2;++q){ UnicodeStringRef x=f.getStringValue(hF(q?sub:kind)); SX_ASSERT((x.getBuffer()!=NULL)==cur[q].set&&eqU(x,cur[q].c,cur[q].n),"value after"); SX_ASSERT(g.getStringValue(hF(q?sub:kind)).getBuffer()==NULL,"other structure untouched"); } } }
// a restricted value taken from the CAS and stored again
SYMX_SCENARIO_SETUP(restricted_recopy,setup){ CAS* t=small(4+sx_choose("cells",7),4); FeatureStructure f=t->createFS(hT(A)),g=t->createFS(hT(B)); S v=inS("v",0,0,3); f.setStringValue(hF(s),tmp(v)); clobber(); UnicodeStringRef r=f.getStringValue(hF(s)); bool th=throwsUima([&]{ g.setStringValue(hF(kind),r); }); SX_ASSERT(th==!allowed(0,v),"accepted exactly when declared"); if(!th) SX_ASSERT(eqU(g.getStringValue(hF(kind)),v.c,v.n),"value"); else SX_ASSERT(g.getStringValue(hF(kind)).getBuffer()==NULL,"no effect"); SX_ASSERT(eqU(f.getStringValue(hF(s)),v.c,v.n),"source"); symx_reached("restricted copy"); }
// embedded U+0000
SYMX_SCENARIO_SETUP(embedded_nul,setup){ FeatureStructure f=g_cas->createFS(hT(A)); StringArrayFS a=g_cas->createStringArrayFS(1); char16_t c[3]; for(int i=0;i<3;++i) c[i]=sx_u16(NM("c",i)); int n=1+sx_choose("n",3); bool z=false; for(int i=0;i<n;++i) z=z|(c[i]==0); bool viaF=sx_choose("via",2); if(viaF) f.setStringValue(hF(s),UnicodeStringRef(c,n)); else a.set(0,UnicodeStringRef(c,n)); UnicodeStringRef r=viaF?f.getStringValue(hF(s)):a.get(0); bool ok=eqU(r,c,n);
  symx_known("nul",z&&!ok,"a string is stored whole even if it contains U+0000"); SX_ASSERT(ok|z,"code units"); if(z) symx_reached("nul"); }
// long strings, and many of them
SYMX_SCENARIO_SETUP(longer,setup){ static const int LEN[]={15,16,17,31,32,63,64,100,255,256,257,1000,4100}; int n=LEN[sx_choose("n",13)]; bool sm=sx_choose("small",2); CAS* t=sm?small(16,4):g_cas; Places p(t); int at=sx_choose("at",3); at=at==0?0:at==1?n/2:n-1; static char16_t b[4200],k2[4200]; for(int i=0;i<n;++i) b[i]=k2[i]=(char16_t)(0x21+i*7%90); b[at]=k2[at]=sx_unit("u"); int k=sx_choose("k",5); p.put(k,UnicodeStringRef(b,n)); for(int i=0;i<n;++i) b[i]=0x2603; SX_ASSERT(eqU(p.get(k),k2,n),"a long string comes back whole"); int o=(k+1)%5; p.put(o,p.get(k)); SX_ASSERT(eqU(p.get(o),k2,n)&&eqU(p.get(k),k2,n),"and its copy"); p.put(k,UnicodeStringRef(k2+at,1)); SX_ASSERT(eqU(p.get(o),k2,n)&&eqU(p.get(k),k2+at,1),"replaced by a short one"); for(int i=0;i<5;++i) if(i!=k&&i!=o) SX_ASSERT(p.get(i).length()==0,"other places untouched"); symx_reached("longer"); }
SYMX_SCENARIO_SETUP(many,setup){ CAS* t=sx_choose("small",2)?small(16,4):g_cas; enum{N=60}; StringArrayFS a=t->createStringArrayFS(N); char16_t b[8]; static const int AT[]={0,9,30,59}; int at=AT[sx_choose("at",4)]; char16_t u=sx_unit("u"); for(int i=0;i<N;++i){ for(int j=0;j<8;++j) b[j]=(char16_t)(0x30+i+j); if(i==at) b[0]=u; a.set(i,UnicodeStringRef(b,1+i%8)); } int re=sx_choose("again",N/4)*4; b[0]='z'; a.set(re,UnicodeStringRef(b,1)); for(int i=0;i<N;++i){ for(int j=0;j<8;++j) b[j]=(char16_t)(0x30+i+j); if(i==at) b[0]=u; if(i==re) b[0]='z'; SX_ASSERT(eqU(a.get(i),b,i==re?1:1+i%8),"every one of many strings"); } symx_reached("many"); }
