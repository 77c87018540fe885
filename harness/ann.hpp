// Annotation harnesses: annotation types X (Z below X) and Y, declared priorities Y, X, Z.
#ifndef ANN_HPP
#define ANN_HPP
#include "cascommon.hpp"
static ll::TyFSType X_,Y_,Z_; static CAS* c_; static bool prio_=true;
static void annTypes(HDef& D){ using namespace uima::internal; X_=D.type(gs_tyAnnotationType,"N.X"); Y_=D.type(gs_tyAnnotationType,"N.Y"); Z_=D.type(X_,"N.Z"); if(prio_){ D.ts().addTypePriority(Y_,X_); D.ts().addTypePriority(X_,Z_); } }
static void annSetup(){ hSetup(annTypes,[](HDef&){}); c_=g_cas; }
static ll::TyFSType tyX(int t){ return t==0?X_:t==1?Y_:Z_; }
struct An { AnnotationFS fs; int b,e,ty; bool in; };
static An a_[48]; static int na_;
static int mkAn(int ty,int b,int e){ An& a=a_[na_]; a.fs=AnnotationFS(c_->createFS(hT(tyX(ty)))); a.fs.setIntValue(hF(uima::internal::gs_tyBeginPosFeature),b); a.fs.setIntValue(hF(uima::internal::gs_tyEndPosFeature),e); a.b=b; a.e=e; a.ty=ty; a.in=false; return na_++; }
static void addAn(int i){ c_->getIndexRepository().addFS(a_[i].fs); a_[i].in=true; }
static int whoAn(FeatureStructure const& f){ for(int i=0;i<na_;++i) if(a_[i].fs==f) return i; return -1; }
static const int PRI[]={1,0,2};
// i comes strictly before j
static bool befAn(int i,int j){ An&x=a_[i],&y=a_[j]; bool t=PRI[x.ty]<PRI[y.ty]; return (x.b<y.b)|((x.b==y.b)&((x.e>y.e)|((x.e==y.e)&t))); }
struct SeqA { int v[64]; int n; };
template<class I> static SeqA fwdA(I it){ SeqA s={}; for(it.moveToFirst();it.isValid()&&s.n<60;it.moveToNext()) s.v[s.n++]=whoAn(it.get()); return s; }
template<class I> static SeqA bwdA(I it){ SeqA s={}; for(it.moveToLast();it.isValid()&&s.n<60;it.moveToPrevious()) s.v[s.n++]=whoAn(it.get()); return s; }
#endif
