// F03: the life cycle of an analysis engine.
// BOUND: creation of a primitive engine and of aggregates of 2 delegates (flat and nested) with any failure code (a symbolic digit or one of two large values) or an exception from any annotator's initialize or type-system initialisation, a missing library or factory, a capability naming an unknown type
// BOUND: every sequence of up to 3 (thorough 4) calls out of initialize, process, batch and collection complete, reconfigure, type-system change, destroy on a primitive engine and an aggregate, with any code or an exception from the annotators, then deletion
// BOUND: CAS multipliers that produce up to 3 CASes from a pool of 2
// OUTSIDE: the dynamic loader itself (a stand-in returns recording annotators), descriptor files, Java delegates, exceptions other than UIMA's
#include "eng.hpp"
static void reset(){ g_n=0; for(int e=0;e<NEV;++e) for(int k=0;k<NK;++k){ g_rc[e][k]=0; g_throw[e][k]=false; } for(int k=0;k<NK;++k) g_made[k]=g_deleted[k]=0; }
static int cnt(int ev,int k){ int n=0; for(int i=0;i<g_n;++i) n+=g_log[i].ev==ev&&g_log[i].k==k; return n; }
// faults of one annotator: 0 none 1 library missing 2 factory missing 3 initialize fails 4 initialize throws 5 type system fails 6 type system throws 7 unknown type declared
// a failure is logged with the digits of its code: one symbolic digit, or one of two large values
static unsigned code(int k){ switch(sx_choose(nm("code",k),3)){ case 0: return (unsigned)sx_range(nm("rc",k),1,9); case 1: return 5004; default: return 0x7fffffffu; } }
static unsigned fault(int k,int f){ unsigned e=0; g_noLib[k]=f==1; g_noSym[k]=f==2; if(f==3) e=g_rc[INIT][k]=code(k); if(f==4){ g_throw[INIT][k]=true; e=UIMA_ERR_USER_ANNOTATOR_COULD_NOT_PROCESS; } if(f==5) e=g_rc[TS][k]=code(k); if(f==6){ g_throw[TS][k]=true; e=UIMA_ERR_USER_ANNOTATOR_COULD_NOT_PROCESS; } return e; }
static AnalysisEngineDescription* prim(int k,int f){ AnalysisEngineDescription* p=mkPrim(k); Capability* c=new Capability(); c->addSupportedLanguage(US("x-unspecified")); c->addCapabilityType(US(f==7?"T.Unknown":"T.A"),Capability::OUTPUT); p->getAnalysisEngineMetaData()->addCapability(c); return p; }
static void one(int f,int k){ int inits=f==1||f==2?0:1; SX_ASSERT(g_made[k]==inits&&g_deleted[k]==g_made[k],"annotator objects are released"); SX_ASSERT(cnt(INIT,k)==inits,"initialised at most once"); SX_ASSERT(cnt(DESTROY,k)==inits,"destroyed once"); }
static void live(int k){ SX_ASSERT(g_made[k]==1&&g_deleted[k]==0&&cnt(INIT,k)==1&&cnt(TS,k)==1&&cnt(DESTROY,k)==0,"ready"); }
static void setup(){ hResMgr(); }
SYMX_SCENARIO_SETUP(createPrimitive,setup){ reset(); int f=sx_choose("f",8); unsigned e=fault(0,f); ErrorInfo ei; AnalysisEngine* a=0; bool th=throwsUima([&]{ a=mkEngine(prim(0,f),ei); }); SX_ASSERT(!th&&(a!=0)==(f==0),"an engine exactly when its annotator could be loaded and initialised"); if(a){ SX_ASSERT(ei.getErrorId()==UIMA_ERR_NONE&&a->isInitialized(),"no error"); live(0); delete a; SX_ASSERT(cnt(DESTROY,0)==1&&g_deleted[0]==1,"released"); symx_reached("created"); } else { SX_ASSERT(ei.getErrorId()!=UIMA_ERR_NONE,"failure is reported"); if(e!=0) SX_ASSERT((unsigned)ei.getErrorId()==e,"with the annotator's code"); one(f,0); symx_reached("failed"); } }
static void aggr(bool nest){ reset(); int f[2]={sx_choose("f0",8),sx_choose("f1",8)}; unsigned e[2]; for(int i=0;i<2;++i) e[i]=fault(i,f[i]);
  AnalysisEngineDescription* a=mkAggr(true); if(nest){ AnalysisEngineDescription* in=mkAggr(true); addDel(in,1,prim(1,f[1])); addDel(a,0,prim(0,f[0])); addDel(a,2,in); } else for(int i=0;i<2;++i) addDel(a,i,prim(i,f[i]));
  ErrorInfo ei; AnalysisEngine* en=0; bool th=throwsUima([&]{ en=mkEngine(a,ei); }); bool ok=f[0]==0&&f[1]==0; SX_ASSERT(!th&&(en!=0)==ok,"an aggregate exactly when all its delegates could be created");
  if(en){ live(0); live(1); delete en; for(int i=0;i<2;++i) SX_ASSERT(cnt(DESTROY,i)==1&&g_deleted[i]==1,"released"); symx_reached("created"); }
  else { int w=f[0]?0:1; SX_ASSERT(ei.getErrorId()!=UIMA_ERR_NONE,"failure is reported"); if(e[w]!=0) SX_ASSERT((unsigned)ei.getErrorId()==e[w],"the first failing delegate's code"); one(f[0],0); if(w==0) SX_ASSERT(g_made[1]==0,"later delegates are not created"); else one(f[1],1); symx_reached("failed"); } }
SYMX_SCENARIO_SETUP(createAggregate,setup){ aggr(false); }
SYMX_SCENARIO_SETUP(createNested,setup){ aggr(true); }
// histories
static AnalysisEngine* g_eng; static AnalysisEngineDescription* g_desc; static CAS* g_c;
static void setupP(){ hResMgr(); g_desc=prim(0,0); g_eng=mkEngine(g_desc); g_c=g_eng->newCAS(); g_c->setDocumentText(US("x")); tofs(g_eng,g_c,false); }
static void setupA(){ hResMgr(); g_desc=mkAggr(true); for(int i=0;i<2;++i) addDel(g_desc,i,prim(i,0)); g_eng=mkEngine(g_desc); g_c=g_eng->newCAS(); g_c->setDocumentText(US("x")); tofs(g_eng,g_c,false); }
static void history(int nd,int steps){
  static const int OP[7]={-1,PROC,BATCH,COLL,RECONF,DESTROY,PROC}; bool alive[2]={true,true}; bool eng=true; int wantDestroy[2]={0,0};
  for(int s=0;s<steps;++s){ int o=sx_choose(nm("op",s),7); int op=OP[o]; g_n=0; for(int i=0;i<nd;++i){ g_throw[PROC][i]=g_throw[BATCH][i]=g_throw[COLL][i]=g_throw[RECONF][i]=g_throw[DESTROY][i]=false; } unsigned rc[2]={0,0}; int thr=-1; if(op>=0){ thr=sx_choose(nm("thr",s),nd+1)-1; if(thr>=0) g_throw[op][thr]=true; for(int i=0;i<nd;++i) rc[i]=g_rc[op][i]=sx_u32(nm("rc",s*2+i)); }
    unsigned got=0; bool th=throwsUima([&]{ switch(o){ case 0: got=g_eng->initialize(*g_desc); break; case 1: got=g_eng->process(*g_c); break; case 2: got=g_eng->batchProcessComplete(); break; case 3: got=g_eng->collectionProcessComplete(); break; case 4: got=g_eng->reconfigure(); break; case 5: got=g_eng->destroy(); break; default: g_eng->processAndOutputNewCASes(*g_c); } });
    if(o==0){ SX_ASSERT(!th&&got==UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE&&g_n==0,"initialised only once"); continue; }
    if(!eng){ if(o==6) SX_ASSERT(th,"refused after destruction"); else SX_ASSERT(!th&&got==UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE,"refused after destruction"); SX_ASSERT(g_n==0,"annotators are not called"); symx_reached("refused"); continue; }
    unsigned ret=0; int calls=0; bool thrown=false; for(int j=0;j<nd;++j){ int i=op==DESTROY?nd-1-j:j; ++calls; if(thr==i){ if(op==PROC){ thrown=true; break; } ret=UIMA_ERR_USER_ANNOTATOR_COULD_NOT_PROCESS; } else if(rc[i]!=0) ret=rc[i]; }
    if(o==6) thrown|=ret!=0; SX_ASSERT(th==thrown,"exceptions of process reach the caller"); if(!th&&o!=6) SX_ASSERT(got==ret,"code reported"); SX_ASSERT(g_n==calls,"annotators called"); if(op==DESTROY){ eng=false; for(int i=0;i<nd;++i) SX_ASSERT(cnt(DESTROY,i)==1,"destroyed"); if(thr>=0) alive[thr]=false; } SX_ASSERT(g_eng->isInitialized()==eng,"state"); }
  for(int i=0;i<nd;++i){ g_throw[DESTROY][i]=false; } g_n=0; delete g_eng; for(int i=0;i<nd;++i){ SX_ASSERT(cnt(DESTROY,i)==(eng?1:0),"deleting an engine destroys it unless done before"); if(alive[i]) SX_ASSERT(g_deleted[i]==g_made[i],"annotators are released"); } symx_observe(eng);
}
SYMX_SCENARIO_SETUP(historyPrimitive,setupP){ history(1,symx_thorough()?4:3); }
SYMX_SCENARIO_SETUP(historyAggregate,setupA){ history(2,symx_thorough()?3:2); }
// CAS multipliers
static void setupM(){ hResMgr(); g_need[0]=2; g_desc=prim(0,0); g_eng=mkEngine(g_desc); g_c=g_eng->newCAS(); g_c->setDocumentText(US("x")); tofs(g_eng,g_c,false); }
SYMX_SCENARIO_SETUP(multiplier,setupM){ reset(); int more=g_more[0]=sx_choose("more",4); unsigned rc=g_rc[PROC][0]=sx_u32("rc"); int keep=sx_choose("keep",2); bool th=throwsUima([&]{ CASIterator it=g_eng->processAndOutputNewCASes(*g_c); int n=0; CAS* out[4]; int held=0; while(it.hasNext()){ CAS* c=0; bool t2=throwsUima([&]{ c=&it.next(); }); SX_ASSERT(t2==(held==2),"as many CASes at once as the component asked for"); if(t2) continue; for(int i=0;i<held;++i) SX_ASSERT(out[i]!=c,"distinct"); SX_ASSERT(c!=g_c&&c->getDocumentText().length()==3,"a new CAS"); ++n; if(keep) out[held++]=c; else g_eng->getAnnotatorContext().releaseCAS(*c); } SX_ASSERT(n==(keep&&more>2?2:more),"exactly the CASes the component produces"); symx_reached("iterated"); }); SX_ASSERT(th==(rc!=0),"processing failed: no CASes"); SX_ASSERT(cnt(PROC,0)==1,"processed once"); symx_observe(th); }
SYMX_SCENARIO_SETUP(aggregateNext,setupA){ reset(); unsigned rc=g_rc[PROC][1]=sx_u32("rc"); bool more=true,th2=false; bool th=throwsUima([&]{ CASIterator it=g_eng->processAndOutputNewCASes(*g_c); more=it.hasNext(); th2=throwsUima([&]{ it.next(); }); }); SX_ASSERT(th==(rc!=0),"error"); if(!th) SX_ASSERT(!more&&th2,"an aggregate produces no CASes"); symx_reached("aggregate"); }
