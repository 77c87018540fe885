// Index harnesses: types A (B, C below A, D below B) with keys k, k2 (int), s (string); on A the indexes
//   asc (k), desc (k reversed), two (k, k2 reversed), str (s), set (k), set2 (k, k2), bag.
#ifndef IDX_HPP
#define IDX_HPP
#include "cascommon.hpp"
static ll::TyFSType A_,B_,C_,D_; static ll::TyFSFeature k_,k2_,s_,l_,d_;
static void idxTypes(HDef& D){ using namespace uima::internal; A_=D.type(D.ts().getTopType(),"I.A"); B_=D.type(A_,"I.B"); C_=D.type(A_,"I.C"); D_=D.type(B_,"I.D"); k_=D.feat(A_,gs_tyIntegerType,"k"); k2_=D.feat(A_,gs_tyIntegerType,"k2"); s_=D.feat(A_,gs_tyStringType,"s"); l_=D.feat(A_,gs_tyLongType,"l"); d_=D.feat(A_,gs_tyDoubleType,"d"); }
static void idxAll(HDef& D){ D.index(ID::enOrdered,A_,{k_},{false},"asc"); D.index(ID::enOrdered,A_,{k_},{true},"desc"); D.index(ID::enOrdered,A_,{k_,k2_},{false,true},"two"); D.index(ID::enOrdered,A_,{s_},{false},"str"); D.index(ID::enSet,A_,{k_},{false},"set"); D.index(ID::enSet,A_,{k_,k2_},{false,false},"set2"); D.index(ID::enFIFO,A_,{},{},"bag"); }
struct E_ { FeatureStructure fs; int k,k2,ty,n; };
static E_ e_[90]; static int ne_;
static uima::internal::CASImpl* g_ci; static CAS* c_;
static bool strKeys_=false; // the string key is one code unit with value k
static void idxSetup(){ hSetup(idxTypes,idxAll); c_=g_cas; ne_=0; }
static ll::TyFSType tyOf(int t){ return t==0?A_:t==1?B_:t==2?C_:D_; }
static int mkFS(int ty,int k,int k2=0){ E_& e=e_[ne_]; e.fs=c_->createFS(hT(tyOf(ty))); e.k=k; e.k2=k2; e.ty=ty; e.n=0; e.fs.setIntValue(hF(k_),k); e.fs.setIntValue(hF(k2_),k2); if(strKeys_){ UChar u=(UChar)k; e.fs.setStringValue(hF(s_),UnicodeStringRef(&u,1)); } return ne_++; }
static FSIndexRepository& rep(CAS* c=0){ return (c?c:c_)->getIndexRepository(); }
static int who(FeatureStructure const& f){ for(int i=0;i<ne_;++i) if(hA(e_[i].fs)==hA(f)) return i; return -1; }
static bool subT(int a,int b){ return a==b||a==0||(a==1&&b==3); } // type b is a or below a
// collects an iteration (indices into e_), at most 100 elements
struct Seq { int v[104]; int n; };
static Seq fwd(FSIterator it){ Seq s={}; for(it.moveToFirst();it.isValid()&&s.n<100;it.moveToNext()) s.v[s.n++]=who(it.get()); return s; }
static Seq bwd(FSIterator it){ Seq s={}; for(it.moveToLast();it.isValid()&&s.n<100;it.moveToPrevious()) s.v[s.n++]=who(it.get()); return s; }
enum Ord { ASC,DESC,TWO,STR,SET,SET2,BAG };
static const char* LBL[]={"asc","desc","two","str","set","set2","bag"};
// element a may come directly before b
static bool le(int o,int a,int b){ int x=e_[a].k,y=e_[b].k,x2=e_[a].k2,y2=e_[b].k2; switch(o){ case ASC: return x<=y; case DESC: return x>=y; case STR: return x<=y; case TWO: return (x<y)|((x==y)&(x2>=y2)); default: return true; } }
static bool keq(int o,int a,int b){ return (e_[a].k==e_[b].k)&((o==TWO||o==SET2)?e_[a].k2==e_[b].k2:true); }
// the index over type t holds exactly the elements with their multiplicities, in order; backward is the reverse
static void checkOrdered(int o,int t,CAS* c=0){ FSIndex ix=t==0&&!symx_thorough()?rep(c).getIndex(US(LBL[o])):rep(c).getIndex(US(LBL[o]),hT(tyOf(t))); Seq f=fwd(ix.iterator()),b=bwd(ix.iterator()); int tot=0;
  for(int i=0;i<ne_;++i){ int want=subT(t,e_[i].ty)?e_[i].n:0,have=0; for(int j=0;j<f.n;++j) have+=f.v[j]==i; SX_ASSERT(have==want,"every added structure is iterated, nothing else"); tot+=want; }
  SX_ASSERT(f.n==tot,"number of iterated structures"); SX_ASSERT((int)ix.getSize()==tot,"size"); SX_ASSERT(b.n==f.n,"backward iteration has the same length");
  for(int j=0;j<f.n&&j<b.n;++j) SX_ASSERT(f.v[j]==b.v[f.n-1-j],"backward iteration is the reverse");
  for(int j=0;j+1<f.n;++j) if(f.v[j]>=0&&f.v[j+1]>=0) SX_ASSERT(le(o,f.v[j],f.v[j+1]),"key order"); for(int j=0;j<f.n;++j) symx_observe(f.v[j]); }
static void add(int i,CAS* c=0){ rep(c).addFS(e_[i].fs); ++e_[i].n; }
static void rem(int i,CAS* c=0){ rep(c).removeFS(e_[i].fs); if(e_[i].n) --e_[i].n; }
#endif
