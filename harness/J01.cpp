// J01: the JNI bridge transfers CAS contents, types and errors faithfully.
// BOUND: arrays of each kind with 0..3 (thorough 0..4) elements of any value and string arrays with NULL, empty and longer strings in both directions, lent as copies or in place; every table a Java caller can ask for, with such contents
// BOUND: CASes made by any 1 (thorough 2) of the 16 steps of S01 carried into an instance (fresh, with previous content, after reset, with the type system sent over first) and back; process on the CAS or a view with any result specification, batch and collection complete, destroy, initialization and type-system change with a failure code (0, 5, a large one) or an exception from the annotator; up to 3 CASes of a multiplier; a life cycle with a Java logger
// BOUND: S01's larger CASes carried into an instance and back; arrays of 63, 64, 65, 500 or 1500 elements of every kind (strings of up to 39 characters) in both directions with one element of any value
// OUTSIDE: the Java side and the VM itself (a stand-in VM checks the rules for native code); failures of the VM such as lack of memory; the result specification, which processJNI does not hand on; NULL for arrays
#include "ser.hpp"
#include "eng.hpp"
#include "jvm.hpp"
#include <uima/org_apache_uima_uimacpp_UimacppEngine.h>
using namespace uima::internal;
#define JF(x) Java_org_apache_uima_uimacpp_UimacppEngine_##x
#define JC(x) org_apache_uima_uimacpp_UimacppEngine_##x
static J* o_; static JNIEnv* e_; static Dump da_,db_;
static JNIInstance* inst(){ return (JNIInstance*)(intptr_t)o_->field; }
static void start(){ e_=theEnv(); o_=new J(JK_OBJ,0); o_->field=(jlong)new JNIInstance(); j_copy=sx_choose("copy",2); }
static void quiet(){ SX_ASSERT(j_exc==0,"no exception"); balanced(); }
static void raised(long id){ SX_ASSERT(j_exc!=0&&j_exc->field==id,"the error surfaces as a Java exception with its code"); if(j_exc){ SX_ASSERT(j_exc->msg!=0&&j_exc->msg->k==JK_STR,"with a message"); } j_exc=0; balanced(); }
// ---- arrays
static int NEL(){ return symx_thorough()?5:4; }
template<class T> static std::vector<T> vec(const char* p,int n){ std::vector<T> v; for(int i=0;i<n;++i){ uint64_t q=sizeof(T)==1?sx_u8(nm(p,i)):sizeof(T)==2?sx_u16(nm(p,i)):sizeof(T)==4?sx_u32(nm(p,i)):sx_u64(nm(p,i)); v.push_back((T)q); } return v; }
static char16_t g_txt[16][4]; static int g_ntxt;
static std::vector<UnicodeStringRef> strs(const char* p,int n){ std::vector<UnicodeStringRef> v; for(int i=0;i<n;++i){ int l=sx_choose(nm(p,i,"l"),4)-1; if(l<0){ v.push_back(UnicodeStringRef()); continue; } char16_t* t=g_txt[g_ntxt++&15]; for(int q=0;q<l;++q) t[q]=(char16_t)sx_u16(nm(p,i*4+q,"c")); v.push_back(UnicodeStringRef((UChar*)t,(size_t)l)); } return v; }
static bool eqS(std::vector<UnicodeStringRef> const& a,std::vector<UnicodeStringRef> const& b){ if(a.size()!=b.size()) return false; bool r=true; unsigned x=0; for(size_t i=0;i<a.size();++i){ if((a[i].getBuffer()==NULL)!=(b[i].getBuffer()==NULL)||a[i].length()!=b[i].length()) return false; for(size_t q=0;q<a[i].length();++q) x|=(unsigned)(a[i].getBuffer()[q]^b[i].getBuffer()[q]); } return r&&x==0; }
template<class T> static bool eqV(std::vector<T> const& a,std::vector<T> const& b){ if(a.size()!=b.size()) return false; uint64_t x=0; for(size_t i=0;i<a.size();++i) x|=(uint64_t)(a[i]^b[i]); return x==0; }
static void none(){}
#define TRIP(NAME,T,K,TO,FROM,JT) SYMX_SCENARIO_SETUP(NAME,none){ start(); int n=sx_choose("n",NEL()); std::vector<T> v=vec<T>("v",n),w(2,(T)7); J* a=jOf(v,K); JNIUtils::FROM(e_,(JT)(jobject)a,w); quiet(); SX_ASSERT(eqV(v,w),"from Java"); J* b=jp(JNIUtils::TO(e_,v)); quiet(); SX_ASSERT(jeqArr(b,K,v),"to Java"); symx_observe(n); symx_reached("arrays"); }
TRIP(ints,SerializedCAS::TyNum,JK_INT,createIntArray,createIntVector,jintArray) TRIP(bytes,char,JK_BYTE,createByteArray,createByteVector,jbyteArray) TRIP(shorts,short,JK_SHORT,createShortArray,createShortVector,jshortArray) TRIP(longs,INT64,JK_LONG,createLongArray,createLongVector,jlongArray)
SYMX_SCENARIO_SETUP(strings,none){ start(); int n=sx_choose("n",3); std::vector<UnicodeStringRef> v=strs("s",n),w(1); std::vector<icu::UnicodeString> pool; J* a=jStrs(v); JNIUtils::createStringVector(e_,(jobjectArray)(jobject)a,w,pool); quiet(); for(int i=0;i<n;++i) if(a->o[i]) memset(a->o[i]->d,0x55,(size_t)a->o[i]->n*2); SX_ASSERT(eqS(v,w),"from Java, independent of the Java strings"); J* b=jp(JNIUtils::createStringArray(e_,v)); quiet(); SX_ASSERT(jeqStrs(b,v),"to Java"); symx_reached("string arrays"); }
// ---- tables
static void tables(bool seg){ start(); SerializedCAS& s=seg?inst()->getSerializedSegment():inst()->getSerializedCAS(); inst()->setCAS(g_cas);
  static const int W[17]={JC(TYPE_INH),JC(FEATURE_DEF),JC(FEATURE_OFFSET),JC(TYPE_SYMBOLS),JC(FEATURE_SYMBOLS),JC(TYPE_PRIORITIES),JC(FSHEAP),JC(BYTEHEAP),JC(SHORTHEAP),JC(LONGHEAP),JC(STRINGSYMBOL),JC(INDEXEDFSS),JC(INDEXID),JC(INDEXKIND),JC(COMPARATORDEF),JC(COMPARATORSTART),JC(TOPTYPE)};
  std::vector<SerializedCAS::TyNum>* I[17]={&s.iv_vecTypeInheritanceTable,&s.iv_vecFeatureDefinitionTable,&s.iv_vecFeatureOffsetTable,0,0,&s.iv_vecTypePriorityTable,&s.iv_vecFSHeapArray,0,0,0,0,&s.iv_vecIndexedFSs,0,&s.iv_vecIndexKindTable,&s.iv_vecComparatorDefinitionTable,&s.iv_vecComparatorStartTable,0}; std::vector<UnicodeStringRef>* S[17]={0,0,0,&s.iv_vecTypeSymbolTable,&s.iv_vecFeatureSymbolTable,0,0,0,0,0,&s.iv_vecStringSymbolTable,0,&s.iv_vecIndexIDTable,0,0,0,0};
  int w=sx_choose("which",17),n=sx_choose("n",3); for(int i=0;i<17;++i){ if(I[i]){ *I[i]=i==w?vec<SerializedCAS::TyNum>("v",n):std::vector<SerializedCAS::TyNum>(i%4,i); } if(S[i]) *S[i]=i==w?strs("s",n):std::vector<UnicodeStringRef>(1+i%3); } s.iv_vecByteHeapArray=W[w]==JC(BYTEHEAP)?vec<char>("v",n):std::vector<char>(1,3); s.iv_vecShortHeapArray=W[w]==JC(SHORTHEAP)?vec<short>("v",n):std::vector<short>(2,3); s.iv_vecLongHeapArray=W[w]==JC(LONGHEAP)?vec<INT64>("v",n):std::vector<INT64>(3,3);
  J* r=jp(seg?JF(getSerializedSegmentDataJNI)(e_,o_,W[w]):JF(getSerializedDataJNI)(e_,o_,W[w])); quiet(); SX_ASSERT(r!=0,"an object");
  if(I[w]) SX_ASSERT(jeqArr(r,JK_INT,*I[w]),"the table asked for"); else if(S[w]) SX_ASSERT(jeqStrs(r,*S[w]),"the strings asked for"); else if(W[w]==JC(BYTEHEAP)) SX_ASSERT(jeqArr(r,JK_BYTE,s.iv_vecByteHeapArray),"bytes"); else if(W[w]==JC(SHORTHEAP)) SX_ASSERT(jeqArr(r,JK_SHORT,s.iv_vecShortHeapArray),"shorts"); else if(W[w]==JC(LONGHEAP)) SX_ASSERT(jeqArr(r,JK_LONG,s.iv_vecLongHeapArray),"longs"); else SX_ASSERT(r->k==JK_INTEGER&&r->field==(jlong)g_def->ts().getTopType(),"the top type"); symx_reached("tables"); }
SYMX_SCENARIO_SETUP(tablesCas,serSetup){ tables(false); }
SYMX_SCENARIO_SETUP(tablesSegment,serSetup){ tables(true); }
// ---- contents
static void fill(int n){ bas_=g_cas; nall_=0; for(int i=0;i<n;++i) act(sx_choose(nm("a",i),NACT),i); root(); }
static void send(CAS* from){ CASSerializer ser(false); SerializedCAS sc; ser.serializeData(*from,sc); JF(fillCASJNI)(e_,o_,(jintArray)(jobject)jOf(sc.iv_vecFSHeapArray,JK_INT),(jintArray)(jobject)jOf(sc.iv_vecIndexedFSs,JK_INT),(jobjectArray)(jobject)jStrs(sc.iv_vecStringSymbolTable),(jbyteArray)(jobject)jOf(sc.iv_vecByteHeapArray,JK_BYTE),(jshortArray)(jobject)jOf(sc.iv_vecShortHeapArray,JK_SHORT),(jlongArray)(jobject)jOf(sc.iv_vecLongHeapArray,JK_LONG)); quiet(); }
template<class T> static std::vector<T> back(int w,int k,bool seg){ J* a=jp(seg?JF(getSerializedSegmentDataJNI)(e_,o_,w):JF(getSerializedDataJNI)(e_,o_,w)); quiet(); std::vector<T> v; SX_ASSERT(a&&a->k==k,"kind"); for(int i=0;i<a->n;++i) v.push_back(((T*)a->d)[i]); return v; }
static void receive(CAS* to,bool seg){ SerializedCAS sc; sc.iv_vecFSHeapArray=back<SerializedCAS::TyNum>(JC(FSHEAP),JK_INT,seg); sc.iv_vecIndexedFSs=back<SerializedCAS::TyNum>(JC(INDEXEDFSS),JK_INT,seg); sc.iv_vecByteHeapArray=back<char>(JC(BYTEHEAP),JK_BYTE,seg); sc.iv_vecShortHeapArray=back<short>(JC(SHORTHEAP),JK_SHORT,seg); sc.iv_vecLongHeapArray=back<INT64>(JC(LONGHEAP),JK_LONG,seg);
  J* a=jp(seg?JF(getSerializedSegmentDataJNI)(e_,o_,JC(STRINGSYMBOL)):JF(getSerializedDataJNI)(e_,o_,JC(STRINGSYMBOL))); quiet(); for(int i=0;i<a->n;++i) sc.iv_vecStringSymbolTable.push_back(a->o[i]?UnicodeStringRef((UChar*)a->o[i]->d,(size_t)a->o[i]->n):UnicodeStringRef()); CASDeserializer de; de.deserializeData(sc,*to); }
static int N(){ return symx_thorough()?2:1; }
static void trip(int used){ start(); fill(N()); dump(da_,g_cas); CAS* t=hCreate(g_def); inst()->setCAS(t); if(used){ CAS* b=bas_; int k=nall_; bas_=t; for(int i=0;i<3;++i){ CAS* v=viewNo(i); v->setDocumentText(US("previous")); FeatureStructure x=v->createFS(hT(L_)); v->getIndexRepository().addFS(x); v->createLongArrayFS(5); } nall_=k; bas_=b; if(used==2){ JF(serializeCASJNI)(e_,o_,JNI_TRUE); quiet(); JF(resetJNI)(e_,o_); quiet(); } }
  send(g_cas); dump(db_,t); same(da_,db_,"the content arrives");  JF(serializeCASJNI)(e_,o_,JNI_TRUE); quiet(); CAS* u=hCreate(g_def); receive(u,false); dump(db_,u); same(da_,db_,"the content comes back"); after(t); after(u); dump(db_,t); same(da_,db_,"later creations leave it alone"); dump(db_,u); same(da_,db_,"later creations leave it alone"); symx_reached("contents"); }
SYMX_SCENARIO_SETUP(contents,serSetup){ trip(0); }
SYMX_SCENARIO_SETUP(contentsUsed,serSetup){ trip(1); }
SYMX_SCENARIO_SETUP(contentsReset,serSetup){ trip(2); }
// ---- types
static AnalysisEngine* g_eng;
static J* rs0(){ return jNew(JK_INT,0); }
static void reset(){ g_n=0; for(int e=0;e<NEV;++e) for(int k=0;k<NK;++k){ g_rc[e][k]=0; g_throw[e][k]=false; } }
static long faultOf(int ev,int k){ switch(sx_choose("fault",4)){ case 0: return 0; case 1: g_rc[ev][k]=5; return 5; case 2: g_rc[ev][k]=0x7ffffff0u; return 0x7ffffff0; default: g_throw[ev][k]=true; return UIMA_ERR_USER_ANNOTATOR_COULD_NOT_PROCESS; } }
static void setupT(){ serSetup(); g_eng=mkEngine(mkPrim(0)); }
static void sendTypes(){ CASSerializer ser(false); SerializedCAS sc; ser.serializeDefinitions(*g_def,sc); std::vector<SerializedCAS::TyNum> no;
  #define II(x) (jintArray)(jobject)jOf(sc.x,JK_INT)
  #define SS(x) (jobjectArray)(jobject)jStrs(sc.x)
  JF(typeSystemInitJNI)(e_,o_,SS(iv_vecTypeSymbolTable),SS(iv_vecFeatureSymbolTable),II(iv_vecTypeInheritanceTable),II(iv_vecFeatureDefinitionTable),(jint)g_def->ts().getTopType(),II(iv_vecFeatureOffsetTable),II(iv_vecTypePriorityTable),II(iv_stringSubTypes),SS(iv_stringSubTypeValues),II(iv_stringSubTypeValuePos),SS(iv_vecIndexIDTable),(jintArray)(jobject)jOf(no,JK_INT),II(iv_vecIndexKindTable),II(iv_vecComparatorStartTable),II(iv_vecComparatorDefinitionTable)); }
SYMX_SCENARIO_SETUP(typesOver,setupT){ reset(); start(); inst()->setEngine(g_eng); if(sx_choose("had",2)) inst()->setCAS(g_eng->newCAS()); sendTypes(); quiet(); CAS* t=inst()->getCAS(); SX_ASSERT(t!=0&&t->getTypeSystem().getType(US("T.L")).isValid()&&!t->getTypeSystem().getType(US("T.Nope")).isValid(),"the engine works with the types sent"); fill(1); dump(da_,g_cas); send(g_cas); dump(db_,t); same(da_,db_,"contents with the types sent"); symx_reached("types"); }
SYMX_SCENARIO_SETUP(typesFail,setupT){ reset(); start(); inst()->setEngine(g_eng); inst()->setCAS(g_eng->newCAS()); long id=faultOf(TS,0); g_n=0; CAS* old=inst()->getCAS(); (void)old; sendTypes(); if(id==0) quiet(); else { raised(id); symx_reached("types refused"); } CAS* t=inst()->getCAS(); SX_ASSERT(t!=0&&t->getTypeSystem().getType(US("T.L")).isValid(),"the CAS fits the types sent"); int told=0; for(int i=0;i<g_n;++i) told+=g_log[i].ev==TS; SX_ASSERT(told==1,"the annotator is told once"); reset(); if(id==0){ sendTypes(); quiet(); } JF(processJNI)(e_,o_,0,0,(jintArray)(jobject)rs0(),(jintArray)(jobject)rs0()); if(id==0) quiet(); else { SX_ASSERT(j_exc!=0&&j_exc->field!=0,"an engine that refused the types is not used"); j_exc=0; balanced(); } }
// ---- processing and events
static void setupP(){ hResMgr(); g_eng=mkEngine(mkPrim(0)); }
SYMX_SCENARIO_SETUP(process,setupP){ reset(); start(); inst()->setEngine(g_eng); CAS* c=g_eng->newCAS(); inst()->setCAS(c); tofs(g_eng,c,false); c->getView(US("_InitialView"))->setDocumentText(US("x")); CAS* va=c->createView(US("a")); va->setDocumentText(US("y"));
  for(int s=0;s<2;++s){ reset(); long id=0; int v=sx_choose(nm("view",s),4); if(s==0) id=faultOf(PROC,0); static const char* V[4]={"","_InitialView","a","zz"}; JF(processJNI)(e_,o_,v?1:0,(jstring)(jobject)(v?jStr(V[v]):0),(jintArray)(jobject)rs0(),(jintArray)(jobject)rs0());
    if(v==3){ SX_ASSERT(j_exc!=0&&g_n==0,"an unknown view is an error"); j_exc=0; balanced(); symx_reached("unknown"); continue; }
    SX_ASSERT(g_n==1&&g_log[0].ev==PROC,"the annotator is called once"); if(v==2) SX_ASSERT(g_log[0].cas!=0&&g_log[0].cas->getSofa().isValid()&&hA(g_log[0].cas->getSofa())==hA(va->getSofa()),"with the view named"); if(id) { raised(g_throw[PROC][0]?id:UIMA_ERR_PROCESS_OUTPUT_CAS); symx_reached("raised"); } else { quiet(); symx_reached("processed"); } } }
static void setupE(){ hResMgr(); AnalysisEngineDescription* a=mkAggr(true); for(int i=0;i<2;++i) addDel(a,i,mkPrim(i)); g_eng=mkEngine(a); }
SYMX_SCENARIO_SETUP(events,setupE){ reset(); start(); inst()->setEngine(g_eng); inst()->setCAS(g_eng->newCAS()); int o=sx_choose("op",3); static const int EV[3]={BATCH,COLL,DESTROY}; int k=sx_choose("who",2); long id=faultOf(EV[o],k); g_n=0;
  switch(o){ case 0: JF(batchProcessCompleteJNI)(e_,o_); break; case 1: JF(collectionProcessCompleteJNI)(e_,o_); break; default: JF(destroyJNI)(e_,o_); }
  SX_ASSERT(g_n>=2&&g_log[0].ev==EV[o],"the annotators are called"); if(id) raised(id); else { quiet(); if(o==2) SX_ASSERT(o_->field==0,"the instance is gone"); } symx_reached("events"); }
// ---- CAS multipliers
static void setupM(){ hResMgr(); g_need[0]=2; g_eng=mkEngine(mkPrim(0)); }
SYMX_SCENARIO_SETUP(multiplier,setupM){ reset(); start(); inst()->setEngine(g_eng); CAS* c=g_eng->newCAS(); inst()->setCAS(c); tofs(g_eng,c,false); c->setDocumentText(US("x")); JF(processJNI)(e_,o_,0,0,(jintArray)(jobject)rs0(),(jintArray)(jobject)rs0()); quiet(); int more=g_more[0]=sx_choose("more",4),n=0; bool fail=sx_choose("fail",2);
  while(JF(hasNextSegmentJNI)(e_,o_)){ quiet(); if(fail&&n==1) g_throw[NEXT][0]=true; JF(nextSegmentJNI)(e_,o_); if(fail&&n==1){ raised(UIMA_ERR_USER_ANNOTATOR_COULD_NOT_PROCESS); g_throw[NEXT][0]=false; ++n; symx_reached("next failed"); continue; } quiet(); ++n; JF(serializeSegmentJNI)(e_,o_,JNI_TRUE); quiet(); CAS* u=g_eng->newCAS(); receive(u,true); UnicodeStringRef t=u->getView(US("_InitialView"))->getDocumentText(); SX_ASSERT(t.length()==3&&t.getBuffer()[0]=='n'&&t.getBuffer()[2]=='w',"the segment arrives"); delete u; if(sx_choose(nm("rel",n),2)){ JF(releaseSegmentJNI)(e_,o_); quiet(); } }
  quiet(); SX_ASSERT(n==more,"as many as produced"); JF(releaseSegmentJNI)(e_,o_); quiet(); JF(releaseSegmentJNI)(e_,o_); quiet(); symx_reached("segments"); }
// ---- life cycle
static const char* XML_="<?xml version='1.0' encoding='UTF-8'?><taeDescription xmlns='http://uima.apache.org/resourceSpecifier'><frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>true</primitive><annotatorImplementationName>a0</annotatorImplementationName><analysisEngineMetaData><name>n</name><description/><version>1</version><vendor/><configurationParameters/><configurationParameterSettings/><typeSystemDescription/><fsIndexes/><capabilities><capability><inputs/><outputs/><languagesSupported><language>x-unspecified</language></languagesSupported></capability></capabilities></analysisEngineMetaData></taeDescription>";
// 0 a good descriptor, 1 not XML, 2 the library is missing, 3 the annotator refuses with 5, 4 it throws
static J* descr(int f){ return jStr(f==1?"<taeDescription><unclosed>":XML_); }
static void flaw(int f){ reset(); g_noLib[0]=f==2; if(f==3) g_rc[INIT][0]=5; g_throw[INIT][0]=f==4; }
static void life(int fail){ reset(); e_=theEnv(); o_=new J(JK_OBJ,0); j_copy=sx_choose("copy",2); j_logLevel=sx_choose("level",4); JF(createResourceManagerJNI)(e_,0); quiet(); JF(constructorJNI)(e_,o_); quiet(); SX_ASSERT(o_->field!=0&&inst()->getEngine()==0,"an instance"); flaw(fail); JF(initializeJNI)(e_,o_,(jstring)(jobject)descr(fail));
  if(fail){ if(fail>=3) raised(fail==3?5:UIMA_ERR_USER_ANNOTATOR_COULD_NOT_PROCESS); else { SX_ASSERT(j_exc!=0&&j_exc->field!=0&&j_exc->msg!=0,"the error surfaces"); j_exc=0; balanced(); } symx_reached("refused"); int again=sx_choose("again",3); if(again==1){ flaw(0); JF(initializeJNI)(e_,o_,(jstring)(jobject)descr(0)); quiet(); SX_ASSERT(inst()->getEngine()!=0,"another try works"); } else if(again==2){ JF(destroyJNI)(e_,o_); quiet(); return; } else { JF(destructorJNI)(e_,o_); quiet(); return; } }
  else quiet(); SX_ASSERT(inst()->getEngine()!=0&&inst()->getCAS()!=0,"ready"); inst()->getCAS()->setDocumentText(US("x")); g_throw[PROC][0]=sx_choose("throws",2); JF(processJNI)(e_,o_,0,0,(jintArray)(jobject)rs0(),(jintArray)(jobject)rs0()); if(g_throw[PROC][0]) raised(UIMA_ERR_USER_ANNOTATOR_COULD_NOT_PROCESS); else quiet(); JF(resetJNI)(e_,o_); quiet(); int d=g_deleted[0]; JF(destroyJNI)(e_,o_); quiet(); SX_ASSERT(o_->field==0&&g_deleted[0]==d+1,"everything is released"); JF(destructorJNI)(e_,o_); quiet(); symx_reached("destroyed"); }
SYMX_SCENARIO_SETUP(lifeGood,none){ life(0); }
SYMX_SCENARIO_SETUP(lifeFailed,none){ life(1+sx_choose("how",4)); }
SYMX_SCENARIO_SETUP(version,none){ start(); J* s=jp(JF(getVersionJNI)(e_,0)); quiet(); SX_ASSERT(s&&s->n==3&&((jchar*)s->d)[0]=='2',"version"); static const char* no=0; (void)no; int i=sx_choose("id",3); static const long ID_[3]={0,5004,99999}; J* m=jp(JF(getErrorMessageJNI)(e_,0,ID_[i])); quiet(); const char* t=AnalysisEngine::getErrorIdAsCString(ID_[i]); bool same_=m&&m->n==(int)strlen(t); for(int q=0;same_&&q<m->n;++q) same_=((jchar*)m->d)[q]==(jchar)t[q]; SX_ASSERT(same_,"the name of the error"); symx_reached("version"); }
// larger contents and arrays
SYMX_SCENARIO_SETUP(larger,serSetup){ start(); bigFill(sx_choose("sz",4)); bigDump(0,g_cas); CAS* t=hCreate(g_def); inst()->setCAS(t); send(g_cas); bigDump(1,t); bigSame("the larger content arrives"); bool seg=false; JF(serializeCASJNI)(e_,o_,JNI_TRUE); quiet(); CAS* u=hCreate(g_def); receive(u,seg); bigDump(1,u); bigSame("the larger content comes back"); after(t); after(u); bigDump(1,t); bigSame("later creations leave it alone"); bigDump(1,u); bigSame("later creations leave it alone"); symx_reached("larger"); }
SYMX_SCENARIO_SETUP(larger_arrays,none){ start(); static const int LN[5]={63,64,65,500,1500}; int n=LN[sx_choose("n",5)],at=sx_choose("at",3),k=sx_choose("kind",5); int p=at==0?0:at==1?n/2:n-1; uint64_t q=sx_u64("q");
  auto go=[&](auto z,int K,auto to,auto from){ typedef decltype(z) T; std::vector<T> v((size_t)n),w(2,(T)7); for(int i=0;i<n;++i) v[(size_t)i]=(T)(i*2654435761u); v[(size_t)p]=(T)q; J* a=jOf(v,K); from(a,w); quiet(); SX_ASSERT(eqV(v,w),"a long array from Java"); J* b=jp(to(v)); quiet(); SX_ASSERT(jeqArr(b,K,v),"a long array to Java"); };
  if(k==0) go((SerializedCAS::TyNum)0,JK_INT,[&](std::vector<SerializedCAS::TyNum>& v){ return (jobject)JNIUtils::createIntArray(e_,v); },[&](J* a,std::vector<SerializedCAS::TyNum>& w){ JNIUtils::createIntVector(e_,(jintArray)(jobject)a,w); });
  else if(k==1) go((char)0,JK_BYTE,[&](std::vector<char>& v){ return (jobject)JNIUtils::createByteArray(e_,v); },[&](J* a,std::vector<char>& w){ JNIUtils::createByteVector(e_,(jbyteArray)(jobject)a,w); });
  else if(k==2) go((short)0,JK_SHORT,[&](std::vector<short>& v){ return (jobject)JNIUtils::createShortArray(e_,v); },[&](J* a,std::vector<short>& w){ JNIUtils::createShortVector(e_,(jshortArray)(jobject)a,w); });
  else if(k==3) go((INT64)0,JK_LONG,[&](std::vector<INT64>& v){ return (jobject)JNIUtils::createLongArray(e_,v); },[&](J* a,std::vector<INT64>& w){ JNIUtils::createLongVector(e_,(jlongArray)(jobject)a,w); });
  else { static char16_t big[1500][40]; std::vector<UnicodeStringRef> v,w(1); std::vector<icu::UnicodeString> pool; for(int i=0;i<n;++i){ if(i%7==3){ v.push_back(UnicodeStringRef()); continue; } int l=i%40; for(int c=0;c<l;++c) big[i][c]=(char16_t)(0x100+i*41+c); v.push_back(UnicodeStringRef((UChar*)big[i],(size_t)l)); } if(v[(size_t)p].length()>0) big[p][v[(size_t)p].length()-1]=(char16_t)q;
    J* a=jStrs(v); JNIUtils::createStringVector(e_,(jobjectArray)(jobject)a,w,pool); quiet(); SX_ASSERT(eqS(v,w),"many strings from Java"); J* b=jp(JNIUtils::createStringArray(e_,v)); quiet(); SX_ASSERT(jeqStrs(b,v),"many strings to Java"); }
  symx_reached("long arrays"); }
