// V01: views are isolated and uniquely named.
// BOUND: every history of 3 (thorough: 4) operations out of creating or looking up a view by a name of 0..2 (any code units, the reserved name included), looking up the initial view, setting a one-unit text, indexing a structure or an annotation in a view, removing a structure from a view it is or is not indexed in, over all views present; everything observable is checked at the end; up to 3 views with up to 3 structures each in any placement; the same after a reset
// BOUND: two created names and a queried one of 12, 13 or 24 units that agree except at one (any) place, there any code units; also 6 views with one entry and one text anywhere
// OUTSIDE: names of several arbitrary units beyond two, longer histories; view names mapped by an aggregate (T01); the deprecated createSofa calls
#include "cascommon.hpp"
static ll::TyFSType K_,X_; static ll::TyFSFeature k_;
static void types(HDef& D){ K_=D.type(D.ts().getTopType(),"V.K"); k_=D.feat(K_,uima::internal::gs_tyIntegerType,"k"); X_=D.type(uima::internal::gs_tyAnnotationType,"V.X"); }
static void indexes(HDef& D){ D.index(ID::enOrdered,K_,{k_},{false},"sorted"); D.index(ID::enFIFO,K_,{},{},"bag"); }
struct Vw { CAS* c; char16_t n[32]; int nn; char16_t t; bool text; };
static Vw v_[8]; static int nv_;
struct F_ { FeatureStructure fs; int view; bool an; int made; };
static F_ f_[8]; static int nf_; static bool initSofa_;
static void setup(){ hSetup(types,indexes); nv_=1; nf_=0; initSofa_=false; v_[0].c=g_cas; v_[0].nn=12; const char* p="_InitialView"; for(int i=0;i<12;++i) v_[0].n[i]=p[i]; v_[0].text=false; }
static int find(const char16_t* n,int len){ for(int i=1;i<nv_;++i) if(v_[i].nn==len){ unsigned d=0; for(int j=0;j<len;++j) d|=(unsigned)(v_[i].n[j]^n[j]); if(d==0) return i; } return -1; }
static icu::UnicodeString UN(const char16_t* n,int len){ return icu::UnicodeString((const UChar*)n,len); }
static int sofas(){ int n=0; FSIterator it=g_cas->getSofaIterator(); for(;it.isValid()&&n<20;it.moveToNext()) ++n; return n; }
static void create(const char16_t* n,int len){ int w=find(n,len); CAS* r=0; CAS* from=v_[nv_-1].c; bool thr=throwsUima([&]{ r=from->createView(UN(n,len)); }); SX_ASSERT(thr==(w>=0),"creating a view fails exactly when the name exists");
  if(!thr){ SX_ASSERT(r!=0,"a created view is returned"); for(int i=0;i<nv_;++i) SX_ASSERT(v_[i].c!=r,"a created view is a new one"); Vw& x=v_[nv_++]; x.c=r; x.nn=len; for(int i=0;i<len;++i) x.n[i]=n[i]; x.text=false; symx_reached("created"); } }
static void get(CAS* from,const char16_t* n,int len){ int w=find(n,len); CAS* r=0; bool thr=throwsUima([&]{ r=from->getView(UN(n,len)); }); SX_ASSERT(thr==(w<0),"a view is found exactly when it was created"); if(!thr){ SX_ASSERT(r==v_[w].c,"a name leads to the view created under it"); symx_reached("found"); } }
static void text(int v,char16_t u){ char16_t b[1]={u}; v_[v].c->setDocumentText(UnicodeStringRef((UChar*)b,1)); v_[v].t=u; v_[v].text=true; if(v==0) initSofa_=true; }
static void put(int v,bool an){ F_& f=f_[nf_++]; f.view=v; f.made=v; f.an=an; if(an) f.fs=v_[v].c->createAnnotation(hT(X_),nf_,nf_+1); else { f.fs=v_[v].c->createFS(hT(K_)); f.fs.setIntValue(hF(k_),100-nf_); } v_[v].c->getIndexRepository().addFS(f.fs); }
static void drop(int v,int f){ v_[v].c->getIndexRepository().removeFS(f_[f].fs); if(f_[f].view==v) f_[f].view=-1; }
static int whoF(FeatureStructure const& x){ for(int i=0;i<nf_;++i) if(hA(f_[i].fs)==hA(x)) return i; return -1; }
static void contents(int v,FSIndex ix,bool an,bool doc){ int seen[8]={0},docs=0,n=0; FSIterator it=ix.iterator(); for(it.moveToFirst();it.isValid()&&n<20;it.moveToNext(),++n){ FeatureStructure x=it.get(); int w=whoF(x); if(w>=0) ++seen[w]; else { ++docs; SX_ASSERT(an&&hA(x)==hA(v_[v].c->getDocumentAnnotation()),"nothing else is indexed"); } if(an) SX_ASSERT(((AnnotationFS)x).getView()==v_[v].c,"an annotation belongs to its view"); }
  for(int i=0;i<nf_;++i) SX_ASSERT(seen[i]==((f_[i].view==v&&f_[i].an==an)?1:0),"an entry is in the indexes of its view only"); SX_ASSERT(docs==(doc?1:0),"the document annotation of its view only"); SX_ASSERT((int)ix.getSize()==n,"size"); }
static void checkAll(){ SX_ASSERT(sofas()==nv_-1+(initSofa_?1:0),"one Sofa per view"); CAS* first=g_cas; SX_ASSERT(first->getInitialView()==v_[0].c,"one initial view"); SX_ASSERT(v_[nv_-1].c->getView(US("_InitialView"))==v_[0].c,"the initial view by name");
  for(int v=0;v<nv_;++v){ CAS* c=v_[v].c; if(v) SX_ASSERT(first->getView(UN(v_[v].n,v_[v].nn))==c,"every created view is found"); SX_ASSERT(c->getSofa().isValid()==(v>0||initSofa_),"a view has its Sofa"); if(v>0||initSofa_){ SX_ASSERT(eqU(c->getViewName(),v_[v].n,v_[v].nn),"a view knows its name"); SX_ASSERT(hA(c->getSofa())==hA(first->getSofa(UN(v_[v].n,v_[v].nn))),"the Sofa of the name"); for(int w=0;w<v;++w) if(w>0||initSofa_) SX_ASSERT(hA(v_[w].c->getSofa())!=hA(c->getSofa())&&v_[w].c->getSofa().getSofaRef()!=c->getSofa().getSofaRef(),"Sofas are distinct"); }
    SX_ASSERT(eqU(c->getDocumentText(),&v_[v].t,v_[v].text?1:0),"the text of a view"); contents(v,c->getIndexRepository().getIndex(US("sorted")),false,false); contents(v,c->getIndexRepository().getIndex(US("bag")),false,false); contents(v,c->getAnnotationIndex(),true,v_[v].text); } symx_reached("checked"); }
static int name(const char* p,int i,char16_t* n){ int len=sx_choose(nm(p,i,"l"),3); for(int j=0;j<len;++j) n[j]=(char16_t)(0x61+sx_u8(nm(p,i*10+j,"u"))); return len; }
static void op(int i){ char16_t n[2]; int k=sx_choose(nm("op",i),8); switch(k){
  case 0: { int l=name("c",i,n); create(n,l); break; }
  case 1: { int l=name("g",i,n); get(v_[0].c,n,l); break; }
  case 2: { int l=name("G",i,n); get(v_[nv_-1].c,n,l); break; }
  case 3: { SX_ASSERT(throwsUima([&]{ g_cas->createView(US("_InitialView")); }),"the reserved name cannot be created"); break; }
  case 4: text(sx_choose(nm("v",i),nv_),sx_unit(nm("t",i))); break;
  case 5: case 6: put(sx_choose(nm("v",i),nv_),k==6); break;
  case 7: if(nf_) drop(sx_choose(nm("v",i),nv_),sx_choose(nm("f",i),nf_)); break; } }
SYMX_SCENARIO_SETUP(histories,setup){ int n=symx_thorough()?4:3; for(int i=0;i<n;++i) op(i); checkAll(); }
// three views made beforehand; entries anywhere
static void make3(){ char16_t a[1]={'a'},b[2]={'a','b'}; create(a,1); create(b,2); }
SYMX_SCENARIO_SETUP(entries,setup){ bool before=sx_choose("before",2); if(before) put(0,true); make3(); int n=symx_thorough()?3:2; for(int i=0;i<n;++i){ put(sx_choose(nm("v",i),3),sx_choose(nm("an",i),2)); } if(sx_choose("drop",2)) drop(sx_choose("dv",3),sx_choose("df",nf_)); int t=sx_choose("t",4); if(t<3) text(t,sx_unit("u")); if(symx_thorough()&&sx_choose("t2",2)) text(sx_choose("tv",3),sx_unit("u2")); checkAll(); }
// reuse after a reset: the views are made anew
SYMX_SCENARIO_SETUP(reset,setup){ make3(); if(!symx_thorough()||sx_choose("more",2)) for(int k=0;k<5;++k){ char16_t m[2]={'m',(char16_t)('0'+k)}; v_[0].c->createView(icu::UnicodeString(m,2)); } put(sx_choose("v",3),sx_choose("an",2)); text(sx_choose("tv",3),'q'); v_[sx_choose("from",3)].c->reset(); nv_=1; nf_=0; initSofa_=false; v_[0].text=false; for(int i=0;i<2;++i) op(i); checkAll(); }
// long names that differ in one place
static int longName(int i,char16_t* n,int& pl){ static const char* P="DocumentSofaNumberOne_xyz"; static const int L[]={12,13,24}; int len=L[i==2?sx_choose("l2",3):i==1?sx_choose("l1",2):0]; for(int j=0;j<len;++j) n[j]=P[j]; static const int AT[]={0,8,11}; if(i==0||symx_thorough()) pl=AT[sx_choose(nm("at",i),3)]; int at=pl; n[at]=sx_unit(nm("u",i)); return len; }
SYMX_SCENARIO_SETUP(long_names,setup){ char16_t n[32]; int pl=0; int l=longName(0,n,pl); create(n,l); l=longName(1,n,pl); create(n,l); l=longName(2,n,pl); get(v_[0].c,n,l); text(nv_-1,'x'); checkAll(); symx_reached("long names"); }
// more views
SYMX_SCENARIO_SETUP(many_views,setup){ for(int i=0;i<5;++i){ char16_t n[2]={(char16_t)('a'+i),'v'}; create(n,2); } put(sx_choose("v",6),true); put(sx_choose("w",6),false); text(sx_choose("tv",6),sx_unit("u")); if(sx_choose("drop",2)) drop(sx_choose("dv",2)?f_[0].view:5,0); checkAll(); symx_reached("many views"); }

