// F02: aggregates run their delegates in flow order, and exactly those required.
// BOUND: aggregates of 2 and 3 delegates (thorough: 3 delegates of both languages), each declaring any subset of two output types (also a feature) for the unspecified or one language; every result specification over them, documents in the unspecified or that language, fixed and capability-language flow, any (symbolic) code returned by each delegate, an exception raised by any of them
// BOUND: delegates that declare Sofas and such that do not, the default view mapped or not, with or without content; an aggregate within an aggregate; one component twice in a flow; batch/collection complete, reconfigure, type-system change and destruction with any returned codes
// BOUND: aggregates of eight delegates with six patterns of capabilities (unspecified and one language), any result specification, one delegate with any code, two documents; 24 documents through one engine, one of which fails; the other calls to eight delegates
// BOUND: components declared for the unspecified language, a language or one with a territory, documents in five languages
// OUTSIDE: loading of the annotator libraries (a stand-in for the dynamic loader returns recording annotators), several languages per component (K01), annotators raising exceptions other than UIMA's, descriptor files, Java delegates
#include "eng.hpp"
struct E2 { AnalysisEngine* e; CAS* c; }; static E2 g_e[1024];
static const char* LANG[2]={"x-unspecified","en"};
static AnalysisEngine* flowEngine(bool fixed,int nd,const int* v){ AnalysisEngineDescription* a=mkAggr(fixed); for(int i=0;i<nd;++i){ AnalysisEngineDescription* p=mkPrim(i); p->getAnalysisEngineMetaData()->addCapability(mkCap(LANG[v[i]>>3],v[i]&7,true)); addDel(a,i,p); } return mkEngine(a); }
static void put(int at,AnalysisEngine* e){ g_e[at].e=e; g_e[at].c=e->newCAS(); }
static int V[3]; static void split(int code,int nd,int lbits,int mbits){ for(int i=0;i<nd;++i){ int b=lbits+mbits; int x=code>>(b*i)&((1<<b)-1); V[i]=((x>>mbits)<<3)|(x&((1<<mbits)-1)); } }
static void fill(bool fixed,int nd,int lbits,int mbits,int from){ int n=1<<((lbits+mbits)*nd); for(int i=0;i<n;++i){ split(i,nd,lbits,mbits); put(from+i,flowEngine(fixed,nd,V)); } }
static void setup2(){ hResMgr(); fill(false,2,1,2,0); fill(true,2,0,2,64); }
static void setup3(){ hResMgr(); fill(false,3,0,2,0); }
static void setup3d(){ hResMgr(); fill(false,3,1,2,0); }
static void setupf(){ hResMgr(); fill(false,2,0,3,0); }
static void reset(){ g_n=0; for(int e=0;e<NEV;++e) for(int k=0;k<NK;++k){ g_rc[e][k]=0; g_throw[e][k]=false; } }
// one document through E with nd delegates of capabilities V
static void run(E2& E,bool fixed,int nd,int R,int lang,bool faults){
  reset(); tofs(E.e,E.c,true); CAS* c=E.c; if(lang) c->getDocumentAnnotation().setLanguage(Language("en")); ResultSpecification rs; for(int i=0;i<3;++i) if(R>>i&1) rs.add(g_tof[i]);
  int thrower=-1; if(faults){ thrower=sx_choose("thrower",nd+1)-1; if(thrower>=0) g_throw[PROC][thrower]=true; } for(int i=0;i<nd;++i) g_rc[PROC][i]=sx_u32(NM("rc",i));
  int n[4],m[4],want=0,rem=R; unsigned ret=0; bool thrown=false; 
  for(int i=0;i<nd&&!thrown;++i){ int out=V[i]&7,l=V[i]>>3; bool found=lang||!l; if(!found) out=0; bool call=fixed||(found&&out==0)||(rem&out); if(!call) continue; n[want]=i; m[want]=rem&out; ++want; if(i==thrower){ thrown=true; break; } if(g_rc[PROC][i]!=0) ret=g_rc[PROC][i]; else rem&=~out; }
  unsigned rc=0; bool th=throwsUima([&]{ rc=E.e->process(*c,rs); });
  SX_ASSERT(th==thrown,"an exception reaches the caller"); SX_ASSERT(g_n==want,"exactly the required delegates are called"); unsigned bad=0; for(int i=0;i<want&&i<g_n;++i) bad|=(unsigned)(g_log[i].ev!=PROC)|(unsigned)(g_log[i].k!=n[i])|(unsigned)(g_log[i].cas!=c)|(g_log[i].mask^(unsigned)m[i]); SX_ASSERT(bad==0,"in the declared order, with the CAS and the outputs they are asked for");
  if(!th) SX_ASSERT(rc==ret,"a delegate's error is reported"); if(want<nd) symx_reached("skipped"); if(th) symx_reached("exception"); symx_observe(g_n);
}
SYMX_SCENARIO_SETUP(flow2,setup2){ int code=sx_choose("code",64); split(code,2,1,2); int R=sx_choose("R",4),lang=sx_choose("lang",2); run(g_e[code],false,2,R,lang,false); }
SYMX_SCENARIO_SETUP(flow2faults,setup2){ int code=sx_choose("code",16); split(code,2,0,2); int c2=(code&3)|(code>>2)<<3; int R=sx_choose("R",4); run(g_e[c2],false,2,R,0,true); }
SYMX_SCENARIO_SETUP(fixed2,setup2){ int code=sx_choose("code",16); split(code,2,0,2); int R=sx_choose("R",4),lang=sx_choose("lang",2); run(g_e[64+code],true,2,R,lang,true); symx_reached("fixed"); }
SYMX_SCENARIO_SETUP(flow3,setup3){ int code=sx_choose("code",64); split(code,3,0,2); int R=sx_choose("R",4); run(g_e[code],false,3,R,0,symx_thorough()); }
SYMX_SCENARIO_SETUP(features2,setupf){ int code=sx_choose("code",64); split(code,2,0,3); int R=sx_choose("R",8); run(g_e[code],false,2,R,sx_choose("lang",2),false); }
SYMX_SCENARIO_SETUP(deep_flow3lang,setup3d){ int code=sx_choose("code",512); split(code,3,1,2); int R=sx_choose("R",4),lang=sx_choose("lang",2); run(g_e[code],false,3,R,lang,false); }
// several documents after one another: no state is carried over
SYMX_SCENARIO_SETUP(again,setup2){ static const int C[4]={9,12,41,26}; int code=C[sx_choose("code",4)]; split(code,2,1,2); int v0=V[0],v1=V[1]; E2& E=g_e[code]; reset(); tofs(E.e,E.c,true); ResultSpecification rs; rs.add(g_tof[0]); rs.add(g_tof[1]); for(int i=0;i<2;++i){ g_rc[PROC][i]=sx_u32(NM("prc",i)); g_throw[PROC][i]=sx_choose(NM("pth",i),2)!=0; } throwsUima([&]{ E.e->process(*E.c,rs); }); E.c->reset(); V[0]=v0; V[1]=v1; run(E,false,2,1+sx_choose("R",3),sx_choose("lang",2),false); symx_reached("second document"); }
// process without result specification asks for everything the aggregate declares
static void setupc(){ hResMgr(); int n=0; for(int a1=0;a1<8;++a1) for(int a2=0;a2<4;++a2){ AnalysisEngineDescription* a=mkAggr(false); for(int i=0;i<2;++i){ AnalysisEngineDescription* p=mkPrim(i); p->getAnalysisEngineMetaData()->addCapability(mkCap("x-unspecified",i?7:1,true)); addDel(a,i,p); } a->getAnalysisEngineMetaData()->addCapability(mkCap("x-unspecified",a1,true)); if(a2) a->getAnalysisEngineMetaData()->addCapability(mkCap("en",a2,true)); put(n++,mkEngine(a)); } put(32,0?0:mkEngine(mkPrim(0))); AnalysisEngineDescription* p=mkPrim(0); p->getAnalysisEngineMetaData()->addCapability(mkCap("en",5,true)); put(33,mkEngine(p)); }
SYMX_SCENARIO_SETUP(complete,setupc){ int a1=sx_choose("a1",8),a2=sx_choose("a2",4); E2& E=g_e[a1*4+a2]; reset(); tofs(E.e,E.c,true); unsigned R=a1|a2; unsigned rc0=g_rc[PROC][0]=sx_u32("rc0"); unsigned rc=E.e->process(*E.c); unsigned rem=R&1?(rc0!=0?R:R&~1u):R; int want=(R&1?1:0)+(rem?1:0); SX_ASSERT(g_n==want,"called as required by the declared outputs"); if(R&1) SX_ASSERT(g_log[0].k==0&&g_log[0].mask==1,"first"); if(rem) SX_ASSERT(g_log[want-1].k==1&&g_log[want-1].mask==rem,"second"); SX_ASSERT(rc==(R&1?rc0:0),"code"); symx_reached("complete"); }
SYMX_SCENARIO_SETUP(primitive,setupc){ int which=sx_choose("which",2); E2& E=g_e[32+which]; reset(); tofs(E.e,E.c,true); unsigned rc0=g_rc[PROC][0]=sx_u32("rc0"); bool t=g_throw[PROC][0]=sx_choose("throw",2)!=0; int R=sx_choose("R",9); ResultSpecification rs; for(int i=0;i<3;++i) if(R<8&&R>>i&1) rs.add(g_tof[i]); unsigned rc=0; bool th=throwsUima([&]{ rc=R==8?E.e->process(*E.c):E.e->process(*E.c,rs); }); SX_ASSERT(th==t,"exception"); SX_ASSERT(g_n==1&&g_log[0].k==0&&g_log[0].cas==E.c&&g_log[0].mask==(R<8?R:which?5u:0u),"the annotator is called once with the CAS and result specification given"); if(!th) SX_ASSERT(rc==rc0,"its code is reported"); symx_observe(g_n); }
// which view a delegate gets
static const char* MAP[3]={0,"v","w"};
static void setups(){ hResMgr(); int n=0; for(int aware=0;aware<4;++aware) for(int m0=0;m0<3;++m0) for(int m1=0;m1<3;++m1){ AnalysisEngineDescription* a=mkAggr(true); for(int i=0;i<2;++i){ AnalysisEngineDescription* p=mkPrim(i); p->getAnalysisEngineMetaData()->addCapability(mkCap("x-unspecified",1,(aware>>i&1)?1+i:0)); if(aware>>i&1&&i==0) p->getAnalysisEngineMetaData()->addCapability(mkCap("en",1,false)); addDel(a,i,p); int m=i?m1:m0; if(m){ SofaMapping* s=new SofaMapping(); s->setComponentKey(US(KEY[i])); s->setComponentSofaName(US("")); s->setAggregateSofaName(US(MAP[m])); a->addSofaMapping(s); } } put(n++,mkEngine(a)); } }
SYMX_SCENARIO_SETUP(views,setups){ int aware=sx_choose("aware",4),m[2]={sx_choose("m0",3),sx_choose("m1",3)}; E2& E=g_e[(aware*3+m[0])*3+m[1]]; reset(); tofs(E.e,E.c,true); CAS* view[3]={E.c,0,0}; bool have[3]; int what=sx_choose("what",8); if(what&1) E.c->setDocumentText(US("text")); have[0]=what&1; for(int i=1;i<3;++i){ have[i]=what>>i&1; if(have[i]) view[i]=E.c->createView(US(MAP[i])); } unsigned rcs[2]; for(int i=0;i<2;++i) rcs[i]=g_rc[PROC][i]=sx_u32(NM("rc",i));
  unsigned ret=0; int want=0; CAS* exp[2]; int who[2]; for(int i=0;i<2;++i){ if(!(aware>>i&1)&&!have[m[i]]){ ret=99; break; } exp[want]=aware>>i&1?E.c:view[m[i]]; who[want++]=i; if(rcs[i]!=0) ret=rcs[i]; }
  ResultSpecification rs; rs.add(g_tof[0]); unsigned rc=E.e->process(*E.c,rs); SX_ASSERT(g_n==want,"a delegate whose view is missing is not called, nor are later ones"); bool ok=true; for(int i=0;i<want&&i<g_n;++i) ok&=g_log[i].k==who[i]&&g_log[i].cas==exp[i]; SX_ASSERT(ok,"each delegate gets the view mapped for it, or the CAS if it names Sofas"); SX_ASSERT(rc==ret,"reported"); if(want==2&&exp[0]!=exp[1]) symx_reached("different views"); symx_observe(g_n); }
// an aggregate inside an aggregate, and a component named twice
static void setupn(){ hResMgr(); int n=0; for(int fi=0;fi<2;++fi) for(int fo=0;fo<2;++fo) for(int io=0;io<4;++io){ AnalysisEngineDescription* in=mkAggr(fi); for(int i=1;i<3;++i){ AnalysisEngineDescription* p=mkPrim(i); p->getAnalysisEngineMetaData()->addCapability(mkCap("x-unspecified",i,true)); addDel(in,i,p); } in->getAnalysisEngineMetaData()->addCapability(mkCap("x-unspecified",io,true)); AnalysisEngineDescription* a=mkAggr(fo); AnalysisEngineDescription* p0=mkPrim(0); p0->getAnalysisEngineMetaData()->addCapability(mkCap("x-unspecified",1,true)); addDel(a,0,p0); addDel(a,1,in); AnalysisEngineDescription* p3=mkPrim(3); p3->getAnalysisEngineMetaData()->addCapability(mkCap("x-unspecified",3,true)); addDel(a,2,p3); put(n++,mkEngine(a)); }
  AnalysisEngineDescription* a=mkAggr(false); AnalysisEngineDescription* p=mkPrim(0); p->getAnalysisEngineMetaData()->addCapability(mkCap("x-unspecified",1,true)); addDel(a,0,p); AnalysisEngineDescription* q=mkPrim(1); q->getAnalysisEngineMetaData()->addCapability(mkCap("x-unspecified",2,true)); addDel(a,1,q); a->getAnalysisEngineMetaData()->getFlowConstraints()->addNode(US(KEY[0])); put(16,mkEngine(a)); }
SYMX_SCENARIO_SETUP(nested,setupn){ int fi=sx_choose("fi",2),fo=sx_choose("fo",2),io=sx_choose("io",4),R=sx_choose("R",4); E2& E=g_e[(fi*2+fo)*4+io]; reset(); tofs(E.e,E.c,true); unsigned rc[4]; for(int i=0;i<4;++i) rc[i]=g_rc[PROC][i]=sx_u32(NM("rc",i)); ResultSpecification rs; for(int i=0;i<2;++i) if(R>>i&1) rs.add(g_tof[i]);
  int k[4],m[4],n=0,rem=R; unsigned ret=0; if(fo||rem&1){ k[n]=0; m[n++]=rem&1; if(rc[0]!=0) ret=rc[0]; else rem&=~1; }
  if(fo||io==0||rem&io){ int r2=rem&io,given=r2; unsigned e2=0; for(int i=1;i<3;++i) if(fi||r2&i){ k[n]=i; m[n++]=r2&i; if(rc[i]!=0) e2=rc[i]; else r2&=~i; } if(e2!=0) ret=e2; else rem&=~given; }
  if(fo||rem){ k[n]=3; m[n++]=rem; if(rc[3]!=0) ret=rc[3]; }
  unsigned got=E.e->process(*E.c,rs); SX_ASSERT(g_n==n,"called"); bool ok=true; for(int i=0;i<n&&i<g_n;++i) ok&=g_log[i].k==k[i]&&g_log[i].mask==(unsigned)m[i]&&g_log[i].cas==E.c; SX_ASSERT(ok,"flow order through the nested aggregate"); SX_ASSERT(got==ret,"code"); symx_reached("nested"); symx_observe(g_n); }
SYMX_SCENARIO_SETUP(twice,setupn){ E2& E=g_e[16]; reset(); tofs(E.e,E.c,true); int R=sx_choose("R",4); unsigned a=g_rc[PROC][0]=sx_u32("a"),b=g_rc[PROC][1]=sx_u32("b"); ResultSpecification rs; for(int i=0;i<2;++i) if(R>>i&1) rs.add(g_tof[i]); unsigned rc=E.e->process(*E.c,rs); int n=0,k[3]; unsigned ret=0; if(R&1){ k[n++]=0; ret=a; } if(R&2){ k[n++]=1; if(b!=0) ret=b; } if(R&1&&a!=0){ k[n++]=0; ret=a; } SX_ASSERT(g_n==n&&rc==ret,"once per node"); bool ok=true; for(int i=0;i<n;++i) ok&=g_log[i].k==k[i]; SX_ASSERT(ok,"order"); symx_observe(n); }
// the other calls reach every delegate
static int g_made0;
static void setupo(){ hResMgr(); AnalysisEngineDescription* a=mkAggr(false); for(int i=0;i<3;++i) addDel(a,i,mkPrim(i)); put(0,mkEngine(a)); }
SYMX_SCENARIO_SETUP(others,setupo){ static const int OP[5]={BATCH,COLL,RECONF,TS,DESTROY}; E2& E=g_e[0]; bool order=g_n==6; for(int i=0;i<3&&order;++i) order&=g_log[2*i].ev==INIT&&g_log[2*i].k==i&&g_log[2*i+1].ev==TS&&g_log[2*i+1].k==i; SX_ASSERT(order,"initialised in flow order"); reset(); int o=sx_choose("op",5),op=OP[o]; unsigned rc[3],ret=0; bool th[3]; for(int i=0;i<3;++i){ rc[i]=g_rc[op][i]=sx_u32(NM("rc",i)); th[i]=g_throw[op][i]=sx_choose(NM("th",i),2)!=0; }
  for(int j=0;j<3;++j){ int i=o==4?2-j:j; unsigned e=th[i]?(unsigned)UIMA_ERR_USER_ANNOTATOR_COULD_NOT_PROCESS:rc[i]; if(e!=0) ret=e; }
  unsigned got=o==0?E.e->batchProcessComplete():o==1?E.e->collectionProcessComplete():o==2?E.e->reconfigure():o==3?((uima::internal::EngineBase*)E.e)->reinitTypeSystem():E.e->destroy();
  SX_ASSERT(got==ret,"last error reported"); int n=0; bool ok=true; for(int i=0;i<g_n;++i){ if(g_log[i].ev!=op) continue; ok&=g_log[i].k==(o==4?2-n:n); ++n; } SX_ASSERT(ok&&n==3,"every delegate once, in flow order (destroyed in reverse), whatever the others return"); symx_observe(got!=0); }
// eight delegates
static const int W8[6][8]={{1,2,4,1,2,4,1,2},{0,1,0,2,0,3,0,4},{7,7,7,7,7,7,7,7},{1,1,1,1,2,2,2,2},{4,0,2,9,10,12,1,0},{15,1,8,2,15,4,8,7}};
static void fill8(bool fixed,int from){ for(int w=0;w<6;++w){ AnalysisEngineDescription* a=mkAggr(fixed); for(int i=0;i<8;++i){ AnalysisEngineDescription* p=mkPrim(i); int v=W8[w][i]; if((v&7)==0&&v<8&&w==4) v=0; p->getAnalysisEngineMetaData()->addCapability(mkCap(LANG[v>>3],v&7,true)); addDel(a,i,p); } put(from+w,mkEngine(a)); } }
static void setup8(){ hResMgr(); fill8(false,0); fill8(true,8); }
SYMX_SCENARIO_SETUP(flow8,setup8){ int w=sx_choose("w",6),fixed=sx_choose("fixed",2); E2& E=g_e[fixed*8+w]; int R=sx_choose("R",8),lang=sx_choose("lang",2),docs=fixed?1:1+sx_choose("docs",2); int bad=sx_choose("bad",8);
  for(int d=0;d<docs;++d){ reset(); if(d) E.c->reset(); tofs(E.e,E.c,true); CAS* c=E.c; if(lang) c->getDocumentAnnotation().setLanguage(Language("en")); ResultSpecification rs; for(int i=0;i<3;++i) if(R>>i&1) rs.add(g_tof[i]); unsigned rc0=g_rc[PROC][bad]=d?0:sx_u32("rc"); int n[8],m[8],want=0,rem=R; unsigned ret=0;
    for(int i=0;i<8;++i){ int v=W8[w][i],out=v&7,l=v>>3; bool found=lang||!l; if(!found) out=0; bool call=fixed||(found&&out==0)||(rem&out); if(!call) continue; n[want]=i; m[want]=rem&out; ++want; if(i==bad&&rc0!=0) ret=rc0; else rem&=~out; }
    unsigned rc=0; bool th=throwsUima([&]{ rc=E.e->process(*c,rs); }); SX_ASSERT(!th&&g_n==want,"exactly the required ones of eight delegates are called"); unsigned x=0; for(int i=0;i<want&&i<g_n;++i) x|=(unsigned)(g_log[i].ev!=PROC)|(unsigned)(g_log[i].k!=n[i])|(unsigned)(g_log[i].cas!=c)|(g_log[i].mask^(unsigned)m[i]); SX_ASSERT(x==0,"in the declared order, with the outputs they are asked for"); SX_ASSERT(rc==ret,"the error is reported"); }
  if(docs>1) symx_reached("eight"); }
// many documents through one engine
SYMX_SCENARIO_SETUP(documents,setup8){ int w=sx_choose("w",6); E2& E=g_e[w]; int at=sx_choose("at",3)*11; bool th=sx_choose("throws",2); unsigned q=sx_u32("rc"); unsigned x=0; int calls=0,exp=0; for(int d=0;d<24;++d){ reset(); E.c->reset(); tofs(E.e,E.c,true); int R=1+d*5%7,lang=d%3==0; if(lang) E.c->getDocumentAnnotation().setLanguage(Language("en")); ResultSpecification rs; for(int i=0;i<3;++i) if(R>>i&1) rs.add(g_tof[i]); if(d==at){ for(int i=0;i<8;++i){ g_rc[PROC][i]=q; g_throw[PROC][i]=th; } throwsUima([&]{ E.e->process(*E.c,rs); }); continue; } unsigned rc=E.e->process(*E.c,rs); x|=rc; calls+=g_n; int rem=R; for(int i=0;i<8;++i){ int v=W8[w][i],out=v&7,l=v>>3; bool found=lang||!l; if(!found) out=0; if((found&&out==0)||(rem&out)){ ++exp; rem&=~out; } } }
  SX_ASSERT(x==0&&calls==exp,"each document is processed as if it were the only one"); symx_reached("documents"); }
SYMX_SCENARIO_SETUP(others8,setup8){ static const int OP[5]={BATCH,COLL,RECONF,TS,DESTROY}; E2& E=g_e[sx_choose("fixed",2)*8]; reset(); int o=sx_choose("op",5),op=OP[o],b=sx_choose("who",8); unsigned rc=g_rc[op][b]=sx_u32("rc"); bool th=g_throw[op][b]=sx_choose("th",2)!=0; unsigned ret=th?(unsigned)UIMA_ERR_USER_ANNOTATOR_COULD_NOT_PROCESS:rc; unsigned got=o==0?E.e->batchProcessComplete():o==1?E.e->collectionProcessComplete():o==2?E.e->reconfigure():o==3?((uima::internal::EngineBase*)E.e)->reinitTypeSystem():E.e->destroy(); SX_ASSERT(got==ret,"the error is reported"); int n=0; bool ok=true; for(int i=0;i<g_n;++i){ if(g_log[i].ev!=op) continue; ok&=g_log[i].k==(o==4?7-n:n); ++n; } SX_ASSERT(ok&&n==8,"every one of eight delegates once, in order, whatever the others return"); symx_reached("others8"); }
// languages with territories
static const char* TL[3]={"x-unspecified","en","en-US"};
static void setupTerr(){ hResMgr(); for(int c=0;c<36;++c){ AnalysisEngineDescription* a=mkAggr(false); int x[2]={c%6,c/6}; for(int i=0;i<2;++i){ AnalysisEngineDescription* p=mkPrim(i); p->getAnalysisEngineMetaData()->addCapability(mkCap(TL[x[i]%3],x[i]/3?1+i:0,1)); addDel(a,i,p); } put(c,mkEngine(a)); } }
SYMX_SCENARIO_SETUP(territories,setupTerr){ int c=sx_choose("c",36); int x[2]={c%6,c/6}; E2& E=g_e[c]; reset(); tofs(E.e,E.c,true); static const char* DL[5]={"x-unspecified","en","en-US","en-GB","de"}; int dl=sx_choose("lang",5); if(dl) E.c->getDocumentAnnotation().setLanguage(Language(DL[dl])); int R=sx_choose("R",4); ResultSpecification rs; for(int i=0;i<2;++i) if(R>>i&1) rs.add(g_tof[i]); int want=0,n[2],m[2],rem=R; for(int i=0;i<2;++i) g_rc[PROC][i]=0;
  for(int i=0;i<2;++i){ int l=x[i]%3,out=x[i]/3?1+i:0; bool found=l==0||(l==1&&dl>=1&&dl<=3)||(l==2&&(dl==1||dl==2)); if(!found) out=0; if(!((found&&out==0)||(rem&out))) continue; n[want]=i; m[want++]=rem&out; rem&=~out; }
  ResultSpecification r2=rs; unsigned rc=E.e->process(*E.c,r2); bool ok=rc==0&&g_n==want; for(int i=0;ok&&i<want;++i) ok=g_log[i].k==n[i]&&(int)g_log[i].mask==m[i]; SX_ASSERT(ok,"exactly the components declared for the language of the document or one containing it"); symx_reached("territories"); }
