// S01: restoring a CAS from its binary or tabular form yields the same content.
// BOUND: contents made by any 2 (thorough: 3) of 16 steps (structures of every feature range, arrays of all nine kinds, references forward, backward and to itself, indexed structures with int, long and double keys, annotations, texts with and without indexed document annotation, a document annotation without text, binary data and URIs in the initial and two more views) with any values, strings of 0..2 units; written as blob or as tables and restored into a fresh CAS or into one with other content; restored twice; every further step after the restoration
// BOUND: also contents of 5 views, 60 structures with strings of up to 390 units, arrays of every kind with 19..73 elements, 24 annotations, index entries in every index (one place of each kind any value; four sizes)
// OUTSIDE: other contents; U+0000 in strings (known finding of C04); the number of times a structure was added to an index (a twice added one comes back once); which of several equal members represents them in a set index
#include "ser.hpp"
static Dump da_,db_;
static void fill(int n){ bas_=g_cas; nall_=0; for(int i=0;i<n;++i) act(sx_choose(nm("a",i),NACT),i); root(); }
static void used(){ FeatureStructure* keepAll=all_; (void)keepAll; CAS* b=bas_; int k=nall_; for(int i=0;i<3;++i){ CAS* v=viewNo(i); v->setDocumentText(UnicodeStringRef((UChar*)u"previous",8)); FeatureStructure x=v->createFS(hT(L_)); x.setLongValue(hF(kl_),77); v->getIndexRepository().addFS(x); v->createByteArrayFS(5); v->createShortArrayFS(5); v->createLongArrayFS(5); } nall_=k; bas_=b; }
static CAS* restore(int way,CAS* from,CAS* to){ using namespace uima::internal; static int rn=0; CASSerializer ser(way==1&&sx_choose(nm("copy",rn++),2)); CASDeserializer de; if(way==0){ size_t n=ser.getBlobSize(*from); char* buf=(char*)malloc(n); memset(buf,0x5a,n); SX_ASSERT(ser.getBlob(*from,buf,n-1)==0&&buf[0]==0x5a&&buf[n-1]==0x5a,"a buffer that is too small is refused untouched"); SX_ASSERT(ser.getBlob(*from,buf,n)==n,"the blob has the announced size"); de.deserializeBlob(buf,*to); free(buf); } else { SerializedCAS sc; ser.serializeData(*from,sc); de.deserializeData(sc,*to); } return to; }
static void go(int n,int way,bool use){ fill(n); dump(da_,g_cas); CAS* t=hCreate(g_def); if(use){ CAS* b=bas_; bas_=t; used(); bas_=b; } restore(way,g_cas,t); dump(db_,t); same(da_,db_,"the restored CAS has the same content"); dump(db_,g_cas); same(da_,db_,"writing changes nothing"); after(t); dump(db_,t); same(da_,db_,"later creations leave it alone"); symx_reached("restored"); }
static int N(){ return symx_thorough()?3:2; }
SYMX_SCENARIO_SETUP(blob,serSetup){ go(N(),0,false); }
SYMX_SCENARIO_SETUP(blob_used,serSetup){ go(symx_thorough()?2:1,0,true); }
SYMX_SCENARIO_SETUP(tables,serSetup){ go(N(),1,false); }
SYMX_SCENARIO_SETUP(tables_used,serSetup){ go(symx_thorough()?2:1,1,true); }
// a restored CAS can be written and restored again
SYMX_SCENARIO_SETUP(twice,serSetup){ fill(1); dump(da_,g_cas); CAS* t=hCreate(g_def); restore(0,g_cas,t); CAS* w=hCreate(g_def); restore(1,t,w); dump(db_,w); same(da_,db_,"the content survives two trips"); symx_reached("twice"); }
// work can go on in the restored CAS as in the original
static void go_on(int way){ fill(symx_thorough()?2:1); CAS* t=hCreate(g_def); restore(way,g_cas,t); int n0=nall_,op=sx_choose("next",NACT); int r0=nrec_; act(op,9); root(); dump(da_,g_cas);
  bas_=t; FSIterator it=t->getView(US("_InitialView"))->getIndexRepository().getIndex(US("roots")).iterator(); ArrayFS r(it.get()); SX_ASSERT((int)r.size()==n0,"the restored root"); nall_=0; for(int i=0;i<n0;++i) all_[nall_++]=r.get(i); prec_=r0; act(op,9); prec_=-1; root(); dump(db_,t); same(da_,db_,"further work gives the same content"); symx_reached("on"); }
SYMX_SCENARIO_SETUP(blob_on,serSetup){ go_on(0); }
SYMX_SCENARIO_SETUP(tables_on,serSetup){ go_on(1); }
// larger contents
SYMX_SCENARIO_SETUP(larger,serSetup){ bigFill(sx_choose("sz",4)); bigDump(0,g_cas); CAS* t=hCreate(g_def); if(sx_choose("used",2)){ bas_=t; used(); } restore(sx_choose("way",2),g_cas,t); bigDump(1,t); bigSame("the restored CAS has the same larger content"); bigDump(1,g_cas); bigSame("writing changes nothing"); if(sx_choose("after",2)){ after(t); bigDump(1,t); bigSame("later creations leave it alone"); } CAS* w=hCreate(g_def); restore(0,t,w); bigDump(1,w); bigSame("again"); symx_reached("larger"); }
