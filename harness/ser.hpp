// Serialization harnesses: builds CAS contents from bounded histories with symbolic values and dumps everything a user can
// observe (structures reachable from the indexes, views, Sofas, texts, index contents) for comparison.
#ifndef SER_HPP
#define SER_HPP
#include "cascommon.hpp"
#include <uima/internal_casserializer.hpp>
#include <uima/internal_casdeserializer.hpp>
#include <uima/internal_serializedcas.hpp>
using namespace full;
static ll::TyFSType K_,L_; static ll::TyFSFeature ki_,kl_,kd_,ks_;
static void serTypes(HDef& D_){ types(D_); using namespace uima::internal; K_=D_.type(A,"T.K"); L_=D_.type(K_,"T.L"); ki_=D_.feat(K_,gs_tyIntegerType,"ki"); kl_=D_.feat(K_,gs_tyLongType,"kl"); kd_=D_.feat(K_,gs_tyDoubleType,"kd"); ks_=D_.feat(K_,gs_tyShortType,"ks"); D_.ts().addTypePriority(Y,X); }
static void serIdx(HDef& D_){ D_.index(ID::enOrdered,K_,{ki_},{true},"int"); D_.index(ID::enOrdered,K_,{kl_},{false},"long"); D_.index(ID::enOrdered,K_,{kd_},{false},"dbl"); D_.index(ID::enSet,K_,{kl_},{false},"set"); D_.index(ID::enFIFO,A,{},{},"bag"); D_.index(ID::enFIFO,uima::internal::gs_tyFSArrayType,{},{},"roots"); }
static void serSetup(){ hSetup(serTypes,serIdx); }
// ---- dump
struct Dump { uint64_t v[900]; int n; };
static Dump* cur_; static HDef* ddef_; // dump target and the definition of the dumped CAS
static void ob(uint64_t v){ if(cur_->n<900) cur_->v[cur_->n]=v; ++cur_->n; }
static void obS(UnicodeStringRef r){ if(r.getBuffer()==NULL){ ob(~0ull); return; } ob(r.length()); for(size_t i=0;i<r.length()&&i<8;++i) ob(r.getBuffer()[i]); }
struct Dm { CAS* c; FeatureStructure fs[24]; int n; };
static Feature fN(CAS* c,FeatureStructure& x,const char* n){ return x.getType().getFeatureByBaseName(US(n)); }
static int idOf(Dm& d,FeatureStructure const& x){ if(!x.isValid()) return -1; for(int i=0;i<d.n;++i) if(hA(d.fs[i])==hA(x)) return i; if(d.n<24) d.fs[d.n]=x; return d.n<24?d.n++:-2; }
static void obFS(Dm& d,int i){ FeatureStructure x=d.fs[i]; ll::TyFSType t=uima::internal::FSPromoter::demoteType(x.getType()); ob(t); using namespace uima::internal;
  if(t==gs_tyFSArrayType){ ArrayFS a(x); ob(a.size()); for(size_t j=0;j<a.size();++j) ob(idOf(d,a.get(j))); }
  else if(t==gs_tyIntArrayType){ IntArrayFS a(x); ob(a.size()); for(size_t j=0;j<a.size();++j) ob((uint32_t)a.get(j)); }
  else if(t==gs_tyFloatArrayType){ FloatArrayFS a(x); ob(a.size()); for(size_t j=0;j<a.size();++j) ob(fbits(a.get(j))); }
  else if(t==gs_tyStringArrayType){ StringArrayFS a(x); ob(a.size()); for(size_t j=0;j<a.size();++j) obS(a.get(j)); }
  else if(t==gs_tyBooleanArrayType){ BooleanArrayFS a(x); ob(a.size()); for(size_t j=0;j<a.size();++j) ob(a.get(j)); }
  else if(t==gs_tyByteArrayType){ ByteArrayFS a(x); ob(a.size()); for(size_t j=0;j<a.size();++j) ob((uint8_t)a.get(j)); }
  else if(t==gs_tyShortArrayType){ ShortArrayFS a(x); ob(a.size()); for(size_t j=0;j<a.size();++j) ob((uint16_t)a.get(j)); }
  else if(t==gs_tyLongArrayType){ LongArrayFS a(x); ob(a.size()); for(size_t j=0;j<a.size();++j) ob((uint64_t)a.get(j)); }
  else if(t==gs_tyDoubleArrayType){ DoubleArrayFS a(x); ob(a.size()); for(size_t j=0;j<a.size();++j) ob(dbits(a.get(j))); }
  else { std::vector<Feature> fv; x.getType().getAppropriateFeatures(fv); ob(fv.size()); for(size_t j=0;j<fv.size();++j){ Type r; fv[j].getRangeType(r); ll::TyFSType rt=FSPromoter::demoteType(r); const Feature& f=fv[j];
      if(rt==gs_tyIntegerType) ob((uint32_t)x.getIntValue(f)); else if(rt==gs_tyFloatType) ob(fbits(x.getFloatValue(f))); else if(rt==gs_tyBooleanType) ob(x.getBooleanValue(f)); else if(rt==gs_tyByteType) ob((uint8_t)x.getByteValue(f)); else if(rt==gs_tyShortType) ob((uint16_t)x.getShortValue(f)); else if(rt==gs_tyLongType) ob((uint64_t)x.getLongValue(f)); else if(rt==gs_tyDoubleType) ob(dbits(x.getDoubleValue(f)));
      else if(x.getCAS().getTypeSystem().getType(US(CAS::TYPE_NAME_STRING)).subsumes(r)) obS(x.getStringValue(f)); else ob(idOf(d,x.getFSValue(f))); } } }
static void obIdx(Dm& d,CAS* c,const char* l,bool order){ FSIterator it=c->getIndexRepository().getIndex(US(l)).iterator(); int n=0; uint64_t s=0; for(it.moveToFirst();it.isValid()&&n<16;it.moveToNext(),++n){ if(order) ob(idOf(d,it.get())); } ob(n); }
static bool bagOrder_=true;
static void dump(Dump& o,CAS* base){ cur_=&o; o.n=0; Dm d; d.c=base; d.n=0; int ns=0; FSIterator si=base->getSofaIterator(); for(;si.isValid()&&ns<6;si.moveToNext(),++ns) ; ob(ns);
  static const char* V[]={"_InitialView","a","b","c"};
  for(int v=0;v<4;++v){ CAS* c=0; bool no=throwsUima([&]{ c=base->getView(US(V[v])); }); ob(no); if(no) continue; SofaFS s=c->getSofa(); ob(s.isValid()); if(s.isValid()){ obS(s.getSofaID()); obS(s.getSofaMime()); obS(s.getSofaURI()); obS(s.getLocalStringData()); ob(idOf(d,s.getLocalFSData())); } obS(UnicodeStringRef(c->getDocumentText().length()?c->getDocumentText():UnicodeStringRef()));
    // roots first: they name the structures in a fixed order
    obIdx(d,c,"roots",true); obIdx(d,c,"bag",bagOrder_); obIdx(d,c,"int",true); obIdx(d,c,"long",true); obIdx(d,c,"dbl",true); obIdx(d,c,"set",false); ANIterator it=c->getAnnotationIndex().iterator(); int n=0; for(;it.isValid()&&n<12;it.moveToNext(),++n){ AnnotationFS a=it.get(); ob(idOf(d,a)); ob(a.getBeginPosition()); ob(a.getEndPosition()); ob(a.getView()==c); DocumentFS q=((CAS const*)c)->getDocumentAnnotation(); ob(q.isValid()&&hA(q)==hA(a)); } ob(n); { std::vector<ll::TyFS> q; c->iv_indexRepository->getIndexedFSs(q); ob(q.size()); } }
  for(int i=0;i<d.n;++i) obFS(d,i); ob(d.n); }
static void same(Dump& a,Dump& b,const char* what){ SX_ASSERT(a.n==b.n&&a.n<900,what); for(int i=0;i<a.n&&i<b.n&&i<900;++i) SX_ASSERT(a.v[i]==b.v[i],what); symx_observe(a.n); }
// ---- contents
// inputs are asked once and can be repeated for a second CAS
static uint64_t rec_[64]; static int nrec_,prec_=-1;
static uint64_t rq(const char* n,int w){ if(prec_>=0) return rec_[prec_++]; uint64_t v=w==1?sx_u8(n):w==2?sx_u16(n):w==3?sx_unit(n):w==4?sx_u32(n):w==5?(uint64_t)sx_bool(n):sx_u64(n); if(nrec_<64) rec_[nrec_++]=v; return v; }
static FeatureStructure all_[20]; static int nall_; static CAS* bas_;
static FeatureStructure keep(FeatureStructure x){ if(nall_<20) all_[nall_++]=x; return x; }
static CAS* viewNo(int v){ static const char* V[]={"_InitialView","a","b"}; CAS* c=0; if(throwsUima([&]{ c=bas_->getView(US(V[v])); })) c=bas_->createView(US(V[v])); return c; }
static void values(FeatureStructure x,int w){ uint64_t v=rq(nm("v",w),6); x.setIntValue(hF(i),(int)v); x.setFloatValue(hF(f),ffrom((uint32_t)(v>>8))); x.setBooleanValue(hF(b),v&1); x.setByteValue(hF(y),(char)(v>>16)); x.setShortValue(hF(h),(short)(v>>24)); x.setLongValue(hF(l),(INT64)v); x.setDoubleValue(hF(d),dfrom(~v)); char16_t q[2]={(char16_t)((v&0xff)|0x4100),(char16_t)(((v>>8)&0xff)|0x100)}; x.setStringValue(hF(s),UnicodeStringRef((UChar*)q,(size_t)symx_pin((v>>63)+1))); }
static const int NACT=17;
static void act(int op,int w){ CAS* c=bas_; switch(op){
  case 0: { FeatureStructure x=keep(c->createFS(hT(A))); values(x,w); x.setFSValue(hF(r),nall_>1?all_[nall_-2]:x); break; }
  case 1: { FeatureStructure x=keep(c->createFS(hT(D))); x.setStringValue(hF(s),UnicodeStringRef((UChar*)u"",(size_t)0)); x.setStringValue(hF(sub),UnicodeStringRef((UChar*)u"abd",(size_t)3)); x.setLongValue(hF(l),(INT64)rq(nm("v",w),6)); x.setFSValue(hF(ra),x); break; }
  case 2: { LongArrayFS a=c->createLongArrayFS(2); keep(a); a.set(1,(INT64)rq(nm("v",w),6)); DoubleArrayFS e=c->createDoubleArrayFS(1); keep(e); e.set(0,dfrom(rq(nm("w",w),6))); break; }
  case 3: { ByteArrayFS a=c->createByteArrayFS(3); keep(a); a.set(1,(char)rq(nm("v",w),1)); ShortArrayFS q=c->createShortArrayFS(1); keep(q); q.set(0,(short)rq(nm("w",w),2)); break; }
  case 4: { BooleanArrayFS e=c->createBooleanArrayFS(2); keep(e); e.set(1,rq(nm("v",w),5)); StringArrayFS q=c->createStringArrayFS(3); keep(q); char16_t u[1]={(char16_t)rq(nm("w",w),3)}; q.set(1,UnicodeStringRef((UChar*)u,1)); q.set(2,UnicodeStringRef((UChar*)u,(size_t)0)); break; }
  case 5: { IntArrayFS a=c->createIntArrayFS(2); keep(a); a.set(0,(int)rq(nm("v",w),4)); FloatArrayFS e=c->createFloatArrayFS(1); keep(e); e.set(0,ffrom((uint32_t)rq(nm("w",w),4))); ArrayFS q=c->createArrayFS(2); keep(q); q.set(0,a); q.set(1,q); break; }
  case 6: case 7: { CAS* t=op==6?viewNo(0):viewNo(1); for(int j=0;j<2;++j){ FeatureStructure x=keep(t->createFS(hT(j?L_:K_))); uint8_t q=(uint8_t)rq(nm("k",w*2+j),1); x.setIntValue(hF(ki_),(int)q-3); x.setLongValue(hF(kl_),((INT64)q<<33)-5); x.setDoubleValue(hF(kd_),(double)0); t->getIndexRepository().addFS(x); } break; }
  case 8: { CAS* t=viewNo(1); AnnotationFS a=t->createAnnotation(hT(Z),rq(nm("v",w),1),rq(nm("w",w),1)); keep(a); t->getIndexRepository().addFS(a); break; }
  case 9: { AnnotationFS a=c->createAnnotation(hT(X),rq(nm("v",w),1),200); keep(a); c->getIndexRepository().addFS(a); break; }
  case 10: case 11: { char16_t q[2]={(char16_t)rq(nm("v",w),3),(char16_t)rq(nm("w",w),3)}; viewNo(op==10?0:2)->setDocumentText(UnicodeStringRef((UChar*)q,2)); break; }
  case 12: { CAS* t=viewNo(2); ByteArrayFS a=t->createByteArrayFS(2); keep(a); a.set(0,(char)rq(nm("v",w),1)); t->setSofaDataArray(a,US("bin")); break; }
  case 13: { viewNo(1)->setSofaDataURI(US("file:x"),US("m")); FeatureStructure x=keep(c->createFS(hT(K_))); x.setIntValue(hF(ki_),(int)rq(nm("v",w),4)); viewNo(0)->getIndexRepository().addFS(x); viewNo(2)->getIndexRepository().addFS(x); break; }
  case 14: { CAS* t=viewNo(0); DocumentFS q=t->getDocumentAnnotation(); q.setLanguage(Language("de")); t->getIndexRepository().removeFS(q); t->getIndexRepository().addFS(q); break; }
  case 15: { CAS* t=viewNo(2); char16_t q[1]={(char16_t)rq(nm("v",w),3)}; t->setDocumentText(UnicodeStringRef((UChar*)q,1)); t->getIndexRepository().removeFS(t->getDocumentAnnotation()); break; }
  case 16: { CAS* t=viewNo(w%2); IntArrayFS a=c->createIntArrayFS(1); keep(a); a.set(0,(int)rq(nm("v",w),4)); t->getIndexRepository().addFS(a); break; } } }
// everything made so far becomes reachable from an indexed array
static void root(){ ArrayFS r_=bas_->createArrayFS(nall_); for(int i=0;i<nall_;++i) r_.set(i,all_[i]); viewNo(0)->getIndexRepository().addFS(r_); }
// ---- larger contents: 5 views, 60 structures, grown arrays of every kind, long strings; one place of each kind symbolic
static uint64_t B_[2][9000]; static int bn_[2],bc_; static void bo(uint64_t v){ if(bn_[bc_]<9000) B_[bc_][bn_[bc_]]=v; ++bn_[bc_]; }
static void boS(UnicodeStringRef r){ if(r.getBuffer()==NULL){ bo(~0ull); return; } bo(r.length()); for(size_t i=0;i<r.length();++i) bo(r.getBuffer()[i]); }
static const char* BV[]={"_InitialView","a","b","c","d","e","f","g","h","i","j","k"}; enum{NBV=12};
static bool bigXml_; // only what XML can carry
static void bigFill(int sz){ bas_=g_cas; CAS* v[NBV]; uint64_t q=sx_u64("bigv"); char16_t u=sx_unit("bigu"); if(bigXml_) symx_assume((unsigned)(u>=0x20)&(unsigned)(u<0xd800)); v[0]=bas_->getView(US(BV[0])); for(int k=1;k<NBV;++k) v[k]=bas_->createView(US(BV[k])); for(int k=5;k<NBV;++k){ FeatureStructure x=v[k]->createFS(hT(K_)); x.setIntValue(hF(ki_),k); x.setIntValue(hF(i),k==11?(int)q:k); v[k]->getIndexRepository().addFS(x); } enum{N=60}; ArrayFS root=bas_->createArrayFS(N+11); FeatureStructure prev; static char16_t sb[400]; for(int j=0;j<400;++j) sb[j]=(char16_t)(0x21+j*13%90);
  for(int k=0;k<N;++k){ CAS* c=v[k%5]; FeatureStructure x=c->createFS(hT(k%3==1?L_:K_)); root.set(k,x); x.setIntValue(hF(i),k); x.setLongValue(hF(l),k==31?(INT64)q:((INT64)k<<40)-k); x.setDoubleValue(hF(d),k==7&&!bigXml_?dfrom(q):k/8.0); x.setFloatValue(hF(f),k*1.5f); x.setBooleanValue(hF(b),k%4==1); x.setByteValue(hF(y),(char)(k==40&&!bigXml_?q:k*5)); x.setShortValue(hF(h),(short)(k==41?q:k*501)); sb[k%9]=k==33?u:sb[k%9]; x.setStringValue(hF(s),UnicodeStringRef((UChar*)sb+k%7,(size_t)(k==20?390:k%9))); if(k==33) sb[k%9]='#'; x.setFSValue(hF(r),k%11==3||!k?x:prev); x.setIntValue(hF(ki_),k*37%101-50); x.setLongValue(hF(kl_),(INT64)(k*29%61)<<33); x.setDoubleValue(hF(kd_),(k*17%67)/4.0); x.setShortValue(hF(ks_),(short)-k); c->getIndexRepository().addFS(x); if(k%6==2) v[(k+1)%5]->getIndexRepository().addFS(x); prev=x; }
  for(int k=0;k<24;++k){ CAS* c=v[k%3]; AnnotationFS a=c->createAnnotation(hT(k%2?X:k%4?Y:Z),k*5%13,k*5%13+k%5); c->getIndexRepository().addFS(a); }
  IntArrayFS ia=bas_->createIntArrayFS(50+sz); for(size_t k=0;k<ia.size();++k) ia.set(k,(int)(k==49?q:k*k)); FloatArrayFS fa=bas_->createFloatArrayFS(20+sz); for(size_t k=0;k<fa.size();++k) fa.set(k,k*0.25f); ByteArrayFS ba=bas_->createByteArrayFS(70+sz); for(size_t k=0;k<ba.size();++k) ba.set(k,(char)(k+1==ba.size()&&!bigXml_?q:k*3)); BooleanArrayFS za=bas_->createBooleanArrayFS(21+sz); for(size_t k=0;k<za.size();++k) za.set(k,k%3==0); ShortArrayFS ha=bas_->createShortArrayFS(33+sz); for(size_t k=0;k<ha.size();++k) ha.set(k,(short)(k+1==ha.size()?q:k*1001)); LongArrayFS la=bas_->createLongArrayFS(30+sz); for(size_t k=0;k<la.size();++k) la.set(k,(INT64)(k==29?q:k<<35)); DoubleArrayFS da=bas_->createDoubleArrayFS(19+sz); for(size_t k=0;k<da.size();++k) da.set(k,k/3.0); StringArrayFS sa=bas_->createStringArrayFS(25); for(size_t k=0;k<25;++k) if(k%5!=2||bigXml_) sa.set(k,UnicodeStringRef((UChar*)sb+k,(size_t)(k==24?300:k%6))); ByteArrayFS eb=bas_->createByteArrayFS(0); FeatureStructure T[]={ia,fa,ba,za,ha,la,da,sa,eb,root,prev}; for(int k=0;k<11;++k) root.set(N+k,T[k]);
  v[0]->getIndexRepository().addFS(root); sb[5]=u; v[1]->setDocumentText(UnicodeStringRef((UChar*)sb,(size_t)(300+sz))); v[3]->setDocumentText(UnicodeStringRef((UChar*)sb,(size_t)(1+sz))); v[4]->setSofaDataArray(ba,US("bin")); v[2]->setSofaDataURI(US("file:some/longer/path/to/the/data.bin"),US("application/octet-stream")); if(sz&1) prev.setStringValue(hF(s),UnicodeStringRef((UChar*)sb,0)); }
// what is created later must not disturb what was restored
static void after(CAS* t){ static char16_t z[3]={'z','z','z'}; for(int k=0;k<3;++k){ FeatureStructure x=t->createFS(hT(K_)); x.setStringValue(hF(s),UnicodeStringRef((UChar*)z,3)); x.setLongValue(hF(l),-1); x.setDoubleValue(hF(d),-1.5); x.setByteValue(hF(y),-1); x.setShortValue(hF(h),-1); LongArrayFS a=t->createLongArrayFS(3); ByteArrayFS b_=t->createByteArrayFS(5); ShortArrayFS c=t->createShortArrayFS(3); for(size_t q=0;q<3;++q){ a.set(q,-1); b_.set(q,-1); c.set(q,-1); } t->createStringArrayFS(2).set(1,UnicodeStringRef((UChar*)z,2)); } }
static void bigDump(int which,CAS* base){ bc_=which; bn_[which]=0; FSIterator ri=base->getView(US(BV[0]))->getIndexRepository().getIndex(US("roots")).iterator(); bo(ri.isValid()); if(!ri.isValid()) return; ArrayFS root(ri.get()); ri.moveToNext(); bo(ri.isValid()); bo(root.size()); if(root.size()!=71) return;
  for(int k=0;k<60;++k){ FeatureStructure x=root.get(k); bo(uima::internal::FSPromoter::demoteType(x.getType())); bo((uint32_t)x.getIntValue(hF(i))); bo((uint64_t)x.getLongValue(hF(l))); bo(dbits(x.getDoubleValue(hF(d)))); bo(fbits(x.getFloatValue(hF(f)))); bo(x.getBooleanValue(hF(b))); bo((uint8_t)x.getByteValue(hF(y))); bo((uint16_t)x.getShortValue(hF(h))); boS(x.getStringValue(hF(s))); FeatureStructure z=x.getFSValue(hF(r)); bo(z.isValid()?(uint32_t)z.getIntValue(hF(i)):777); bo((uint32_t)x.getIntValue(hF(ki_))); bo((uint64_t)x.getLongValue(hF(kl_))); bo((uint16_t)x.getShortValue(hF(ks_))); }
  { IntArrayFS a(root.get(60)); bo(a.size()); for(size_t k=0;k<a.size();++k) bo((uint32_t)a.get(k)); } { FloatArrayFS a(root.get(61)); bo(a.size()); for(size_t k=0;k<a.size();++k) bo(fbits(a.get(k))); } { ByteArrayFS a(root.get(62)); bo(a.size()); for(size_t k=0;k<a.size();++k) bo((uint8_t)a.get(k)); } { BooleanArrayFS a(root.get(63)); bo(a.size()); for(size_t k=0;k<a.size();++k) bo(a.get(k)); } { ShortArrayFS a(root.get(64)); bo(a.size()); for(size_t k=0;k<a.size();++k) bo((uint16_t)a.get(k)); } { LongArrayFS a(root.get(65)); bo(a.size()); for(size_t k=0;k<a.size();++k) bo((uint64_t)a.get(k)); } { DoubleArrayFS a(root.get(66)); bo(a.size()); for(size_t k=0;k<a.size();++k) bo(dbits(a.get(k))); } { StringArrayFS a(root.get(67)); bo(a.size()); for(size_t k=0;k<a.size();++k) boS(a.get(k)); } { ByteArrayFS a(root.get(68)); bo(a.size()); } bo(root.get(69)==(FeatureStructure)root); bo(root.get(70)==root.get(59));
  for(int v=0;v<NBV;++v){ CAS* c=base->getView(US(BV[v])); SofaFS sf=c->getSofa(); bo(sf.isValid()); if(sf.isValid()){ boS(sf.getSofaID()); boS(sf.getSofaMime()); boS(sf.getSofaURI()); boS(sf.getLocalStringData()); FeatureStructure z=sf.getLocalFSData(); bo(z.isValid()?z==root.get(62):5); } UnicodeStringRef tx=c->getDocumentText(); bo(tx.length()); for(size_t k=0;k<tx.length();++k) bo(tx.getBuffer()[k]); static const char* L[]={"int","long","dbl","set","bag"}; for(int k=0;k<4;++k){ FSIndex ix=c->getIndexRepository().getIndex(US(L[k])); bo(ix.getSize()); FSIterator it=ix.iterator(); for(it.moveToFirst();it.isValid();it.moveToNext()) bo((uint32_t)it.get().getIntValue(hF(i))); } bo(c->getIndexRepository().getIndex(US("bag")).getSize()); ANIndex ai=c->getAnnotationIndex(); bo(ai.getSize()); ANIterator it=ai.iterator(); for(it.moveToFirst();it.isValid();it.moveToNext()){ bo(uima::internal::FSPromoter::demoteType(it.get().getType())); bo(it.get().getBeginPosition()); bo(it.get().getEndPosition()); bo(it.get().getView()==c); } } int ns=0; FSIterator si=base->getSofaIterator(); for(;si.isValid()&&ns<20;si.moveToNext()) ++ns; bo(ns); }
static void bigSame(const char* w){ SX_ASSERT(bn_[0]==bn_[1]&&bn_[0]<9000&&bn_[0]>1500,w); uint64_t bad=0; for(int k=0;k<bn_[0]&&k<bn_[1];++k) bad|=B_[0][k]^B_[1][k]; SX_ASSERT(bad==0,w); symx_observe(bn_[0]); }
#endif
