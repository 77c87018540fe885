// F01: configuration parameters.
// BOUND: one component (and a component within an aggregate, thorough: within two) whose parameter is undefined, defined without groups, or defined in any subset of three groups and the common parameters, with or without default group; every search strategy; settings present or absent in every group that may carry one, their values symbolic; looked up without group and in every (also unknown) group
// BOUND: assignment through any context of an aggregate with two components, parameter restricted to either or not, values symbolic; every declared type and multiplicity against every assigned and requested type and multiplicity (arbitrary 32-bit values, strings of 2 code units, lists of 2)
// BOUND: a name/value pair defined once or again (every type and multiplicity), up to 2 values of every type or text set or added, read through every accessor
// BOUND: 30 parameters without groups or 15 in 12 groups (three types, single and of 20 values, long names), each set or not, one value arbitrary; a parameter of an aggregate of eight components restricted to none, four (two ways) or one of them, set or not, and assigned through any of them
// BOUND: three nested levels that each set the parameter or not, the outer two restricted to nobody in particular, their component, the component's component or another, with and without group, before and after an assignment through any level; restrictions and keys that are equal or differ by a prefix, suffix, blank or case; up to 3 texts (also empty) read as bytes or text; values given as size_t or double, arbitrary
// OUTSIDE: parameters and settings written in descriptor files, numeric settings given as text (U02), the list of groups of a parameter
#include "cascommon.hpp"
#include <uima/annotator_context.hpp>
#include <uima/taespecifier.hpp>
#include <uima/config_param.hpp>
typedef ConfigurationParameter CP; typedef AnalysisEngineMetaData MD;
static void setup(){ hResMgr(); }
static const char* G[5]={"en","en-US","D","zz","en-US-x"}; static const char* NOGROUP="CONFIG_GROUP_NAME_WHEN_NO_GROUPS"; static const char* COMMON="CONFIG_GROUP_NAME_COMMON_PARAMETERS";
static CP* mkP(const char* n,CP::EnParameterType t=CP::INTEGER,CP::EnParameterAggregation m=CP::SINGLE_VALUE){ CP* p=new CP(); p->setName(US(n)); p->setType(t); p->setMultiValued(m); return p; }
static AnalysisEngineDescription* mkD(){ AnalysisEngineDescription* d=new AnalysisEngineDescription(); MD* m=new MD(); m->setName(US("c")); m->setTypeSystemDescription(new TypeSystemDescription()); d->setAnalysisEngineMetaData(m); d->setPrimitive(true); return d; }
static void setI(MD* m,const char* g,int v){ NameValuePair nv; nv.setName(US("p")); nv.define(CP::INTEGER,CP::SINGLE_VALUE); nv.setValue(v); if(m->setNameValuePair(US(g),nv)!=UIMA_ERR_NONE) abort(); }
// what one component declares. kind 0: p undefined, 1: p without groups, 2: groups
struct Lv { int kind,def,common,dflt; int has; int val[4]; };   // def/has: bits over G[0..2]; val[3]: without group
static Lv mkLv(int l,AnalysisEngineDescription* d,int rich){ Lv v; memset(&v,0,sizeof v); MD* m=d->getAnalysisEngineMetaData(); v.kind=sx_choose(nm("kind",l),3); for(int i=0;i<4;++i) v.val[i]=(int)sx_u32(nm("v",l*4+i));
  if(v.kind==0) m->addConfigurationParameter(US(NOGROUP),mkP("q"));
  else if(v.kind==1){ m->addConfigurationParameter(US(NOGROUP),mkP("p")); v.has=sx_choose(nm("has",l),2)<<3; if(v.has) setI(m,NOGROUP,v.val[3]); }
  else { v.common=rich==2?0:sx_choose(nm("common",l),2); int def=v.common?0:rich==2?5:sx_choose(nm("def",l),rich?8:4); if(!rich) def=def==0?0:def==1?1:def==2?4:5; v.dflt=sx_choose(nm("dflt",l),2); v.def=def; for(int i=0;i<3;++i) m->addConfigurationParameter(US(G[i]),mkP(def>>i&1?"p":"q")); if(v.common) m->addConfigurationParameter(US(COMMON),mkP("p")); if(v.dflt) m->setDefaultGroupName(US("D"));
    int can=v.common?(rich?7:5):def; for(int i=0;i<3;++i) if(can>>i&1&&sx_choose(nm("hasn",l*4+i),2)){ v.has|=1<<i; setI(m,G[i],v.val[i]); } }
  return v; }
struct Res { int st; int val; };  // st 0: found, 1: no value, 2: refused
static bool defd(Lv const& v,int g){ if(v.kind==0) return false; if(v.kind==1) return g<0; return v.common||(g>=0&&g<3&&v.def>>g&1); }
static bool has(Lv const& v,int g){ return v.kind==1?g<0&&v.has:v.kind==2&&g>=0&&g<3&&v.has>>g&1; }
static Res local(Lv const& v,int g,int strat){ Res r={2,0}; if(v.kind!=2&&g>=0) return r; int c[5],n=0; c[n++]=g; if(strat==1) c[n++]=v.dflt?2:9; if(strat==2){ if(g==4) c[n++]=1; if(g==4||g==1) c[n++]=0; c[n++]=v.dflt?2:9; }
  if(v.kind!=2&&n>1) { /* the default group is not a group of this component */ bool h=has(v,g); if(h){ r.st=0; r.val=v.val[3]; } return r; }
  for(int i=0;i<n;++i) if(has(v,c[i])){ r.st=0; r.val=v.val[c[i]<0?3:c[i]]; return r; } for(int i=0;i<n;++i) if(defd(v,c[i])) r.st=1; return r; }
static int whenNone(Lv const& v){ return v.kind==2?(v.dflt?2:-2):-1; }
static Res find(Lv* v,int l,int g,int strat){ Res r=local(v[l],g,strat); if(r.st==2||l==0) return r; Res p=find(v,l-1,g,strat); return p.st==0?p:r; }
static Res findNone(Lv* v,int l,const int* strat){ int g=whenNone(v[l]); Res r={2,0}; if(g==-2) return r; r=local(v[l],g,strat[l]); if(r.st==2||l==0) return r; Res p=findNone(v,l-1,strat); return p.st==0?p:r; }
static const MD::EnSearchStrategy ST[3]={MD::NONE,MD::DEFAULT_FALLBACK,MD::LANGUAGE_FALLBACK};
static void look(AnnotatorContext* c,Lv* v,int l,int g,const int* strat){ Res r=g==5?findNone(v,l,strat):find(v,l,g,strat[l]); int got=0; TyErrorId e=0; bool th=throwsUima([&]{ e=g==5?c->extractValue(US("p"),got):c->extractValue(US(G[g]),US("p"),got); }); SX_ASSERT(th==(r.st==2),"refused exactly when the parameter is not defined there"); if(!th){ SX_ASSERT((e==UIMA_ERR_NONE)==(r.st==0),"a value exactly when one is set"); if(r.st==0){ SX_ASSERT(got==r.val,"the most specific applicable setting"); symx_reached("found"); } } symx_observe(th); }
static void chain(int levels,int rich){ AnalysisEngineDescription* d[3]; Lv v[3]; int strat[3]; int g=sx_choose("g",6); static const char* K[2]={"k1","k2"}; for(int l=0;l<levels;++l){ d[l]=mkD(); if(l<levels-1) d[l]->setPrimitive(false); v[l]=mkLv(l,d[l],levels==3&&l<2?2:rich); strat[l]=l==levels-1||(rich&&g==5)?sx_choose(nm("strat",l),3):0; if(v[l].kind!=2&&strat[l]) return; d[l]->getAnalysisEngineMetaData()->setSearchStrategy(ST[strat[l]]); } for(int l=0;l+1<levels;++l) d[l]->addDelegate(US(K[l]),d[l+1]); bool cm=rich&&levels==1&&sx_choose("commit",2); if(cm) d[0]->commit(); AnnotatorContext* c=new AnnotatorContext(d[0]); for(int l=0;l+1<levels;++l) c=c->getDelegate(US(K[l]));
  look(c,v,levels-1,g,strat); if(g==5){ int w=whenNone(v[levels-1]); SX_ASSERT(c->isParameterDefined(US("p"))==defd(v[levels-1],w==-2?-1:w),"defined"); } else SX_ASSERT(c->isParameterDefined(US(G[g]),US("p"))==defd(v[levels-1],g),"defined in the group"); }
#ifndef F01_LIB
SYMX_SCENARIO_SETUP(one,setup){ chain(1,1); }
SYMX_SCENARIO_SETUP(override2,setup){ chain(2,0); }
SYMX_SCENARIO_SETUP(deep_override3,setup){ chain(3,0); }
SYMX_SCENARIO_SETUP(deep_override2rich,setup){ chain(2,1); }
// assignment
SYMX_SCENARIO_SETUP(assign,setup){
  AnalysisEngineDescription* a=mkD(); a->setPrimitive(false); AnalysisEngineDescription* d[2]={mkD(),mkD()}; int grp=sx_choose("grp",2); const char* g=grp?"en":NOGROUP; int pdef=sx_choose("pdef",3);   // aggregate: not defined, defined, defined with the other type
  int restr=pdef==1?sx_choose("restr",4):0; CP* p=mkP(pdef?"p":"q",pdef==2?CP::FLOAT:CP::INTEGER); if(restr&1) p->addRestriction(US("d1")); if(restr&2) p->addRestriction(US("d2")); a->getAnalysisEngineMetaData()->addConfigurationParameter(US(g),p); int cdef[2]; for(int i=0;i<2;++i){ cdef[i]=sx_choose(nm("cdef",i),2); d[i]->getAnalysisEngineMetaData()->addConfigurationParameter(US(g),mkP(cdef[i]?"p":"q")); a->addDelegate(US(i?"d2":"d1"),d[i]); }
  if(grp){ a->getAnalysisEngineMetaData()->setDefaultGroupName(US("en")); for(int i=0;i<2;++i) d[i]->getAnalysisEngineMetaData()->setDefaultGroupName(US("en")); }
  AnnotatorContext* c[3]; c[2]=new AnnotatorContext(a); c[0]=c[2]->getDelegate(US("d1")); c[1]=c[2]->getDelegate(US("d2")); bool commit=sx_choose("commit",2); if(commit) a->commit();
  bool set[3]={false,false,false}; int val[3]={0,0,0}; bool vis[2]; for(int i=0;i<2;++i) vis[i]=pdef==1&&(restr==0||restr>>i&1);
  int steps=sx_choose("steps",2)+1; for(int s=0;s<steps;++s){ int w=sx_choose(nm("w",s),3); int x=(int)sx_u32(nm("x",s)); bool named=grp&&sx_choose(nm("named",s),2); TyErrorId e=0; bool th=throwsUima([&]{ e=named?c[w]->assignValue(US(g),US("p"),x):c[w]->assignValue(US("p"),x); }); int at=w==2?(pdef==1?2:-1):vis[w]?2:cdef[w]?w:-1; SX_ASSERT(!th&&(e==UIMA_ERR_NONE)==(at>=0),"accepted exactly when the parameter is defined with that type"); if(at>=0){ set[at]=true; val[at]=x; symx_reached("assigned"); } }
  for(int i=0;i<3;++i){ int got=0; TyErrorId e=0; bool def=i==2?pdef!=0:cdef[i]; int at=i==2?2:vis[i]&&set[2]?2:i; bool th=throwsUima([&]{ e=c[i]->extractValue(US("p"),got); }); SX_ASSERT(th==!def,"defined"); if(!th){ SX_ASSERT((e==UIMA_ERR_NONE)==set[at],"set"); if(set[at]) SX_ASSERT(got==val[at],"the value assigned last, the aggregate's first"); } } }
// types
struct Val { int i; unsigned f; bool b; icu::UnicodeString s; };
static Val mkV(int n){ Val v; v.i=(int)sx_u32(nm("i",n)); v.f=sx_u32(nm("f",n)); v.b=sx_bool(nm("b",n)); char16_t c[2]={(char16_t)sx_u16(nm("s",n)),(char16_t)sx_u16(nm("t",n))}; v.s=icu::UnicodeString(c,2); return v; }
static TyErrorId put(AnnotatorContext* c,int t,bool multi,Val* v){ icu::UnicodeString n=US("p"); switch(t){ case CP::STRING: if(multi){ std::vector<icu::UnicodeString> x; x.push_back(v[0].s); x.push_back(v[1].s); return c->assignValue(n,x); } return c->assignValue(n,v[0].s); case CP::INTEGER: if(multi){ std::vector<int> x; x.push_back(v[0].i); x.push_back(v[1].i); return c->assignValue(n,x); } return c->assignValue(n,v[0].i);
  case CP::FLOAT: if(multi){ std::vector<float> x; x.push_back(ffrom(v[0].f)); x.push_back(ffrom(v[1].f)); return c->assignValue(n,x); } return c->assignValue(n,ffrom(v[0].f)); default: if(multi){ std::vector<bool> x; x.push_back(v[0].b); x.push_back(v[1].b); return c->assignValue(n,x); } return c->assignValue(n,v[0].b); } }
static bool nan32(unsigned f){ return (f&0x7fffffffu)>0x7f800000u; }
static bool eqF(float a,unsigned f){ return (fbits(a)==f)|nan32(f); }
static bool same(AnnotatorContext* c,int t,bool multi,Val* v,TyErrorId& e){ icu::UnicodeString n=US("p"); unsigned ok=1; switch(t){ case CP::STRING: if(multi){ std::vector<icu::UnicodeString> x; e=c->extractValue(n,x); return x.size()==2&&(x[0]==v[0].s)&&(x[1]==v[1].s); } else { icu::UnicodeString x; e=c->extractValue(n,x); return x==v[0].s; }
  case CP::INTEGER: if(multi){ std::vector<int> x; e=c->extractValue(n,x); return x.size()==2&&((x[0]==v[0].i)&(x[1]==v[1].i)); } else { int x=0; e=c->extractValue(n,x); size_t z=0; c->extractValue(n,z); return (x==v[0].i)&((int)z==v[0].i); }
  case CP::FLOAT: if(multi){ std::vector<float> x; e=c->extractValue(n,x); return x.size()==2&&(eqF(x[0],v[0].f)&eqF(x[1],v[1].f)); } else { float x=0; e=c->extractValue(n,x); return eqF(x,v[0].f); }
  default: if(multi){ std::vector<bool> x; e=c->extractValue(n,x); return x.size()==2&&x[0]==v[0].b&&x[1]==v[1].b; } else { bool x=!v[0].b; e=c->extractValue(n,x); return x==v[0].b; } } }
SYMX_SCENARIO_SETUP(types,setup){ static const CP::EnParameterType T[4]={CP::STRING,CP::INTEGER,CP::FLOAT,CP::BOOLEAN}; int t=sx_choose("t",4),m=sx_choose("m",2),t1=sx_choose("ta",4),m1=sx_choose("ma",2); AnalysisEngineDescription* d=mkD(); d->getAnalysisEngineMetaData()->addConfigurationParameter(US(NOGROUP),mkP("p",T[t],m?CP::MULTIPLE_VALUES:CP::SINGLE_VALUE)); AnnotatorContext* c=new AnnotatorContext(d); Val v[2]={mkV(0),mkV(1)}; Val o[2]={mkV(2),mkV(3)};
  bool had=sx_choose("had",2); if(had) SX_ASSERT(put(c,T[t],m,o)==UIMA_ERR_NONE,"declared type"); TyErrorId e=0; bool th=throwsUima([&]{ e=put(c,T[t1],m1,v); }); bool ok=t==t1&&m==m1; SX_ASSERT(!th&&(e==UIMA_ERR_NONE)==ok,"only values of the declared type and multiplicity are accepted"); if(ok||had){ TyErrorId e2=1; SX_ASSERT(same(c,T[t],m,ok?v:o,e2)&&e2==UIMA_ERR_NONE,"the value set, unchanged by a refused one"); if(t1!=t||m1!=m){ TyErrorId e3=0; SX_ASSERT(throwsUima([&]{ same(c,T[t1],m1,o,e3); }),"not returned through another accessor"); symx_reached("mismatch"); } } else { TyErrorId e2=0; same(c,T[t],m,v,e2); SX_ASSERT(e2!=UIMA_ERR_NONE,"no value"); } symx_observe(ok); }
// a name/value pair by itself: defined twice, set with values of every type or with text, read through every accessor
static bool put1(NameValuePair& q,int t,bool multi,int k,Val const& v,bool& th){ TyErrorId e=0; th=throwsUima([&]{ if(k==4){ static const char* X[3]={"7"," -12","true"}; icu::UnicodeString x=US(X[t==3?2:v.i&1]); e=multi?q.addValue(x):q.setValue(x); } else if(k==0) e=multi?q.addValue(v.s):q.setValue(v.s); else if(k==1) e=multi?q.addValue(v.i):q.setValue(v.i); else if(k==2) e=multi?q.addValue(ffrom(v.f)):q.setValue(ffrom(v.f)); else e=multi?q.addValue((bool)v.b):q.setValue((bool)v.b); }); return e==UIMA_ERR_NONE; }
SYMX_SCENARIO_SETUP(pairs,setup){ static const CP::EnParameterType T[4]={CP::STRING,CP::INTEGER,CP::FLOAT,CP::BOOLEAN}; NameValuePair q; q.setName(US("p")); bool th=false; bool again=sx_choose("again",2); if(again){ int t0=sx_choose("oldtype",4); bool m0=sx_choose("oldmulti",2); Val v0; v0.i=9; v0.f=0x3f800000; v0.b=true; v0.s=US("old"); q.define(T[t0],m0?CP::MULTIPLE_VALUES:CP::SINGLE_VALUE); put1(q,t0,m0,t0,v0,th); }
  int t=sx_choose("type",4); bool m=sx_choose("multi",2); q.define(T[t],m?CP::MULTIPLE_VALUES:CP::SINGLE_VALUE); SX_ASSERT(q.getType()==T[t]&&q.isMultiValued()==m,"as defined"); int n=sx_choose("n",again?2:3); std::vector<Val> w;
  for(int i=0;i<n;++i){ Val v=mkV(i); int k=sx_choose(nm("k",i),5); bool mu=sx_choose(nm("mu",i),2); if(k==0&&t!=0) return; if(k==4){ symx_assume((unsigned)((unsigned)v.i<2)); v.i=(int)symx_pin((uint64_t)v.i); } bool ok=put1(q,t,mu,k,v,th); bool okTy= mu==m&&(k==t||k==4); SX_ASSERT(th==!okTy&&(th||ok),"a value is refused exactly if its type or multiplicity is another"); if(!okTy){ symx_reached("value refused"); continue; } if(k==4){ static const int N[2]={7,-12}; static const char* X[2]={"7"," -12"}; if(t==0) v.s=US(X[v.i]); if(t==1||t==2){ v.f=fbits((float)N[v.i&1]); v.i=N[v.i&1]; } if(t==3) v.b=true; symx_reached("text"); } if(!m) w.clear(); w.push_back(v); }
  if(!m&&w.empty()){ Val z; z.i=0; z.f=0; z.b=false; z.s=US(""); w.push_back(z); }
  for(int u=0;u<4;++u) for(int mu=0;mu<2;++mu){ bool okx=u==t&&(mu!=0)==m; bool r=true; bool th2=throwsUima([&]{ if(mu){ if(u==0){ auto& x=q.extractStringValues(); r=x.size()==w.size(); for(size_t i=0;r&&i<w.size();++i) r=x[i]==w[i].s; } if(u==1){ auto& x=q.extractIntValues(); r=x.size()==w.size(); for(size_t i=0;r&&i<w.size();++i) r=x[i]==w[i].i; } if(u==2){ auto& x=q.extractFloatValues(); r=x.size()==w.size(); for(size_t i=0;r&&i<w.size();++i) r=eqF(x[i],w[i].f); } if(u==3){ auto& x=q.extractBoolValues(); r=x.size()==w.size(); for(size_t i=0;r&&i<w.size();++i) r=x[i]==w[i].b; } }
      else { if(u==0) r=q.extractStringValue()==w[0].s; if(u==1) r=q.extractIntValue()==w[0].i; if(u==2) r=eqF(q.extractFloatValue(),w[0].f); if(u==3) r=q.extractBoolValue()==w[0].b; } }); SX_ASSERT(th2==!okx&&(th2||r),"read through the accessor of its type and multiplicity, the values set"); }
  symx_observe(n); }
#endif
#ifndef F01_LIB
// many parameters, groups and values
SYMX_SCENARIO_SETUP(many,setup){ enum{NP=30,NG=12}; AnalysisEngineDescription* d=mkD(); MD* m=d->getAnalysisEngineMetaData(); bool grp=sx_choose("groups",2); char b[32]; int np=grp?NP/2:NP; const CP::EnParameterType TY[3]={CP::INTEGER,CP::STRING,CP::FLOAT}; auto gname=[&](int g){ static char x[40]; if(!grp) sprintf(x,"%s",NOGROUP); else sprintf(x,g%3==0?"group-with-a-long-name-%d":"g%d",g); return x; }; int ng=grp?NG:1; auto declared=[&](int g,int p){ return !grp||(g+p)%4!=1; };
  for(int g=0;g<ng;++g) for(int p=0;p<np;++p) if(declared(g,p)){ sprintf(b,p%2?"parameterName%d":"p%d",p); m->addConfigurationParameter(US(gname(g)),mkP(b,TY[p%3],p%5==4?CP::MULTIPLE_VALUES:CP::SINGLE_VALUE)); }
  if(grp){ m->setDefaultGroupName(US(gname(3))); m->setSearchStrategy(MD::DEFAULT_FALLBACK); } bool commit=sx_choose("commit",2);
  auto setNV=[&](int g,int p,int v,int n){ NameValuePair nv; sprintf(b,p%2?"parameterName%d":"p%d",p); nv.setName(US(b)); bool multi=p%5==4; nv.define(TY[p%3],multi?CP::MULTIPLE_VALUES:CP::SINGLE_VALUE); for(int k=0;k<(multi?n:1);++k){ int x=v+k*1000; if(p%3==0){ if(multi) nv.addValue(x); else nv.setValue(x); } else if(p%3==1){ char c[24]; sprintf(c,"value %d of many",x%997); if(multi) nv.addValue(US(c)); else nv.setValue(US(c)); } else { if(multi) nv.addValue((float)(x%1000)); else nv.setValue((float)(x%1000)); } } if(m->setNameValuePair(US(gname(g)),nv)!=UIMA_ERR_NONE) abort(); };
  int at=sx_choose("at",3)*6; int q=(int)sx_u32("q"); auto val=[&](int g,int p){ return g*100+p; }; auto set_=[&](int g,int p){ return declared(g,p)&&(g*5+p)%3!=0; };
  for(int g=0;g<ng;++g) for(int p=0;p<np;++p) if(set_(g,p)) setNV(g,p,val(g,p),20);
  if(!declared(0,at)) return; { NameValuePair nv; sprintf(b,"p%d",at); nv.setName(US(b)); nv.define(CP::INTEGER,CP::SINGLE_VALUE); nv.setValue(q); if(at%5!=4&&m->setNameValuePair(US(gname(0)),nv)!=UIMA_ERR_NONE) abort(); }
  if(commit) d->commit(); AnnotatorContext* c=new AnnotatorContext(d); unsigned bad=0; for(int g=0;g<ng;++g) for(int p=0;p<np;++p){ sprintf(b,p%2?"parameterName%d":"p%d",p); icu::UnicodeString P=US(b),G=US(gname(g)); int src=g; bool here=set_(g,p)||(g==0&&p==at&&at%5!=4),def=declared(g,p)||(grp&&declared(3,p)); if(!here&&grp&&set_(3,p)){ src=3; here=true; } bool multi=p%5==4; int w=val(src,p); bool isq=src==0&&p==at&&at%5!=4; TyErrorId e=0; bool ok=true; bool th=throwsUima([&]{
    if(p%3==0&&!multi){ int v=0; e=grp?c->extractValue(G,P,v):c->extractValue(P,v); if(e==UIMA_ERR_NONE) ok=isq?v==q:v==w; } else if(p%3==0){ std::vector<int> v; e=grp?c->extractValue(G,P,v):c->extractValue(P,v); if(e==UIMA_ERR_NONE){ ok=v.size()==20; for(int k=0;ok&&k<20;++k) ok=v[k]==w+k*1000; } }
    else if(p%3==1&&!multi){ icu::UnicodeString v; e=grp?c->extractValue(G,P,v):c->extractValue(P,v); if(e==UIMA_ERR_NONE){ char x[24]; sprintf(x,"value %d of many",w%997); ok=v==US(x); } } else if(p%3==1){ std::vector<icu::UnicodeString> v; e=grp?c->extractValue(G,P,v):c->extractValue(P,v); if(e==UIMA_ERR_NONE){ ok=v.size()==20; for(int k=0;ok&&k<20;++k){ char x[24]; sprintf(x,"value %d of many",(w+k*1000)%997); ok=v[k]==US(x); } } }
    else if(!multi){ float v=0; e=grp?c->extractValue(G,P,v):c->extractValue(P,v); if(e==UIMA_ERR_NONE) ok=v==(float)(w%1000); } else { std::vector<float> v; e=grp?c->extractValue(G,P,v):c->extractValue(P,v); if(e==UIMA_ERR_NONE){ ok=v.size()==20; for(int k=0;ok&&k<20;++k) ok=v[k]==(float)((w+k*1000)%1000); } } });
    bad|=(unsigned)(th!=!def)|(unsigned)(!th&&((e==UIMA_ERR_NONE)!=here||!ok)); }
  SX_ASSERT(bad==0,"every one of many parameters has its own value in its own group"); symx_reached("many"); }
// an aggregate of eight components
SYMX_SCENARIO_SETUP(restricted8,setup){ AnalysisEngineDescription* a=mkD(); a->setPrimitive(false); int r=sx_choose("restr",4); static const unsigned RM[4]={0,0x0f,0xaa,0x80}; CP* p=mkP("p"); char b[24]; auto key=[&](int i){ sprintf(b,i%2?"component-number-%d":"c%d",i); return US(b); }; for(int i=0;i<8;++i) if(RM[r]>>i&1) p->addRestriction(key(i)); a->getAnalysisEngineMetaData()->addConfigurationParameter(US(NOGROUP),p); for(int i=0;i<8;++i){ AnalysisEngineDescription* d=mkD(); d->getAnalysisEngineMetaData()->addConfigurationParameter(US(NOGROUP),mkP("p")); setI(d->getAnalysisEngineMetaData(),NOGROUP,100+i); a->addDelegate(key(i),d); } int x=(int)sx_u32("x"),y=(int)sx_u32("y"); bool decl=sx_choose("declared",2); if(decl) setI(a->getAnalysisEngineMetaData(),NOGROUP,x); AnnotatorContext* c=new AnnotatorContext(a); auto vis=[&](int i){ return r==0||(RM[r]>>i&1); }; for(int i=0;i<8;++i){ int v=0; TyErrorId e=1; bool th=throwsUima([&]{ e=c->getDelegate(key(i))->extractValue(US("p"),v); }); SX_ASSERT(!th&&e==UIMA_ERR_NONE&&v==(decl&&vis(i)?x:100+i),"the aggregate's setting overrides exactly those components it names"); }
  int k=sx_choose("who",8); TyErrorId e=1; bool th=throwsUima([&]{ e=c->getDelegate(key(k))->assignValue(US("p"),y); }); SX_ASSERT(!th&&e==UIMA_ERR_NONE,"assigned"); for(int i=0;i<8;++i){ int v=0; c->getDelegate(key(i))->extractValue(US("p"),v); bool ag=decl||vis(k); SX_ASSERT(v==(vis(i)&&ag?(vis(k)?y:x):i==k?y:100+i),"assignment reaches exactly the components that share the setting"); } symx_reached("restricted"); }
// components three deep: each level may set the parameter and restrict who sees its setting
SYMX_SCENARIO_SETUP(nested3,setup){ int grp=sx_choose("grp",2); const char* g=grp?"en":NOGROUP; static const char* RT[4]={0,"b","c","x"}; static const char* RM[4]={0,"c","b","x"}; int rt=sx_choose("rt",4),rm=sx_choose("rm",4); AnalysisEngineDescription* d[3]; int v[3],w[3]; bool has[3]; for(int l=0;l<3;++l){ d[l]=mkD(); if(l<2) d[l]->setPrimitive(false); CP* p=mkP("p"); if(l==0&&RT[rt]) p->addRestriction(US(RT[rt])); if(l==1&&RM[rm]) p->addRestriction(US(RM[rm])); MD* m=d[l]->getAnalysisEngineMetaData(); m->addConfigurationParameter(US(g),p); if(grp) m->setDefaultGroupName(US("en")); v[l]=(int)sx_u32(nm("v",l)); has[l]=sx_choose(nm("has",l),2); if(has[l]) setI(m,g,v[l]); }
  d[0]->addDelegate(US("b"),d[1]); d[1]->addDelegate(US("c"),d[2]); AnnotatorContext* c[3]; c[0]=new AnnotatorContext(d[0]); c[1]=c[0]->getDelegate(US("b")); c[2]=c[1]->getDelegate(US("c")); bool vt=rt<=1,vm=rm<=1;
  auto check=[&]{ for(int l=0;l<3;++l) for(int named=0;named<=grp;++named){ int at=l==0?0:l==1?(vt&&has[0]?0:1):vm?(vt&&has[0]?0:has[1]?1:2):2; int got=0; TyErrorId e=1; bool th=throwsUima([&]{ e=named?c[l]->extractValue(US(g),US("p"),got):c[l]->extractValue(US("p"),got); }); SX_ASSERT(!th&&(e==UIMA_ERR_NONE)==has[at]&&(!has[at]||got==v[at]),"the outermost setting visible to the component"); } };
  check(); int k=sx_choose("who",3); bool named=grp&&sx_choose("named",2); int x=(int)sx_u32("x"); TyErrorId e=1; bool th=throwsUima([&]{ e=named?c[k]->assignValue(US(g),US("p"),x):c[k]->assignValue(US("p"),x); }); SX_ASSERT(!th&&e==UIMA_ERR_NONE,"assigned"); int at=k==0?0:k==1?(vt?0:1):vm?(vt?0:1):2; has[at]=true; v[at]=x; check(); symx_reached("nested"); (void)w; }
// a component is named by its whole key
SYMX_SCENARIO_SETUP(restrict_names,setup){ static const char* K[8]={"d1","d","d11","D1","d1 "," d1","1","d1/x"}; int k=sx_choose("key",8),r=sx_choose("restr",8),r2=sx_choose("second",9); AnalysisEngineDescription* a=mkD(); a->setPrimitive(false); CP* p=mkP("p"); p->addRestriction(US(K[r])); if(r2<8) p->addRestriction(US(K[r2])); a->getAnalysisEngineMetaData()->addConfigurationParameter(US(NOGROUP),p); AnalysisEngineDescription* d=mkD(); d->getAnalysisEngineMetaData()->addConfigurationParameter(US(NOGROUP),mkP("p")); setI(d->getAnalysisEngineMetaData(),NOGROUP,1); a->addDelegate(US(K[k]),d); int x=(int)sx_u32("x"); setI(a->getAnalysisEngineMetaData(),NOGROUP,x); AnnotatorContext* c=new AnnotatorContext(a); int v=0; c->getDelegate(US(K[k]))->extractValue(US("p"),v); SX_ASSERT(v==(k==r||k==r2?x:1),"a restriction names whole keys"); symx_reached("restriction names"); }
// strings of bytes, and values given and read as unsigned or double
SYMX_SCENARIO_SETUP(texts,setup){ static const char* X[6]={"","a","two words","x","",", "}; int grp=sx_choose("grp",2); const char* g=grp?"en":NOGROUP; AnalysisEngineDescription* d=mkD(); MD* m=d->getAnalysisEngineMetaData(); m->addConfigurationParameter(US(g),mkP("s",CP::STRING)); m->addConfigurationParameter(US(g),mkP("l",CP::STRING,CP::MULTIPLE_VALUES)); if(grp) m->setDefaultGroupName(US("en")); bool cm=sx_choose("commit",2); if(cm) d->commit(); AnnotatorContext* c=new AnnotatorContext(d); int n=sx_choose("n",4),w[4],o=sx_choose("o",2)*3+1; std::vector<icu::UnicodeString> l; for(int i=0;i<n;++i){ w[i]=n==3?sx_choose(nm("w",i),3)*2:sx_choose(nm("w",i),6); l.push_back(US(X[w[i]])); } bool an=grp&&sx_choose("an",2),en=grp&&sx_choose("en",2);
  TyErrorId e=an?c->assignValue(US(g),US("l"),l):c->assignValue(US("l"),l); TyErrorId e2=an?c->assignValue(US(g),US("s"),US(X[o])):c->assignValue(US("s"),US(X[o])); SX_ASSERT(e==UIMA_ERR_NONE&&e2==UIMA_ERR_NONE,"assigned");
  std::string s="old"; e=en?c->extractValue(US(g),US("s"),s):c->extractValue(US("s"),s); SX_ASSERT(e==UIMA_ERR_NONE&&s==X[o],"the text as bytes"); std::vector<std::string*> v; e=en?c->extractValue(US(g),US("l"),v):c->extractValue(US("l"),v); SX_ASSERT((n==0||e==UIMA_ERR_NONE)&&(int)v.size()==n,"all of the texts"); for(int i=0;i<n&&i<(int)v.size();++i) SX_ASSERT(*v[i]==X[w[i]],"the texts as bytes in their order"); c->release(v); SX_ASSERT(v.empty(),"released"); icu::UnicodeString u; e=en?c->extractValue(US(g),US("s"),u):c->extractValue(US("s"),u); SX_ASSERT(e==UIMA_ERR_NONE&&u==US(X[o]),"the text"); std::vector<icu::UnicodeString> lu; e=en?c->extractValue(US(g),US("l"),lu):c->extractValue(US("l"),lu); bool ok=lu.size()==l.size(); for(size_t i=0;ok&&i<l.size();++i) ok=lu[i]==l[i]; SX_ASSERT(ok,"the texts in their order"); symx_reached("texts"); }
SYMX_SCENARIO_SETUP(numbers,setup){ int grp=sx_choose("grp",2); const char* g=grp?"en":NOGROUP; AnalysisEngineDescription* d=mkD(); MD* m=d->getAnalysisEngineMetaData(); m->addConfigurationParameter(US(g),mkP("i",CP::INTEGER)); m->addConfigurationParameter(US(g),mkP("f",CP::FLOAT)); m->addConfigurationParameter(US(g),mkP("b",CP::BOOLEAN)); m->addConfigurationParameter(US(g),mkP("il",CP::INTEGER,CP::MULTIPLE_VALUES)); m->addConfigurationParameter(US(g),mkP("fl",CP::FLOAT,CP::MULTIPLE_VALUES)); m->addConfigurationParameter(US(g),mkP("bl",CP::BOOLEAN,CP::MULTIPLE_VALUES)); if(grp) m->setDefaultGroupName(US("en")); AnnotatorContext* c=new AnnotatorContext(d); bool an=grp&&sx_choose("an",2),en=grp&&sx_choose("en",2); uint32_t q[2]={sx_u32("q0"),sx_u32("q1")}; double z[2]={(double)ffrom(sx_u32("z0")),1.5}; bool t[3]={sx_bool("t0"),sx_bool("t1"),true}; TyErrorId e=0;
  auto put=[&](const char* p,auto const& x){ e|=an?c->assignValue(US(g),US(p),x):c->assignValue(US(p),x); }; auto get=[&](const char* p,auto& x){ e|=en?c->extractValue(US(g),US(p),x):c->extractValue(US(p),x); };
  put("i",(size_t)q[0]); put("f",z[0]); put("b",t[0]); std::vector<size_t> ql; ql.push_back(q[0]); ql.push_back(q[1]); put("il",ql); std::vector<double> zl; zl.push_back(z[1]); zl.push_back(z[0]); put("fl",zl); std::vector<bool> tl; for(int i=0;i<3;++i) tl.push_back(t[i]); put("bl",tl); SX_ASSERT(e==UIMA_ERR_NONE,"assigned");
  size_t s=0; int i=0; float f=0; bool b=false; get("i",s); get("i",i); get("f",f); get("b",b); std::vector<int> il; std::vector<float> fl; std::vector<bool> bl; get("il",il); get("fl",fl); get("bl",bl); SX_ASSERT(e==UIMA_ERR_NONE,"found"); SX_ASSERT(((int)s==(int)q[0])&(i==(int)q[0])&(eqF(f,fbits((float)z[0])))&(b==t[0]),"the numbers set"); SX_ASSERT(il.size()==2&&fl.size()==2&&bl.size()==3,"all of them"); SX_ASSERT((il[0]==(int)q[0])&(il[1]==(int)q[1])&eqF(fl[0],0x3fc00000)&eqF(fl[1],fbits((float)z[0])),"the lists set"); SX_ASSERT(bl[0]==t[0]&&bl[1]==t[1]&&bl[2],"the truth values set"); symx_reached("numbers"); }
#endif
