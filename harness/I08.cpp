// I08: annotation index order.
// BOUND: up to 4 (thorough 5) annotations of three types (declared priorities Y, X, Z) with any 32-bit begins and ends, added in any order, some removed; the index over all annotations and over each type
// BOUND: also an index of 30 annotations of three types with fixed spans to which one with any type and span is added and from which one is removed
// OUTSIDE: ties between types without declared priority (only that their order is the same in both directions)
#include "ann.hpp"
static void setup(){ annSetup(); na_=0; }
static void checkAn(ll::TyFSType t){ ANIndex ix=c_->getAnnotationIndex(hT(t)); SeqA f=fwdA(ix.iterator()),b=bwdA(ix.iterator()); int tot=0; for(int i=0;i<na_;++i){ bool of=t==uima::internal::gs_tyAnnotationType||t==tyX(a_[i].ty)||(t==X_&&a_[i].ty==2); int want=of&&a_[i].in,have=0; for(int j=0;j<f.n;++j) have+=f.v[j]==i; SX_ASSERT(have==want,"every indexed annotation once"); tot+=want; }
  SX_ASSERT(f.n==tot&&b.n==tot&&(int)ix.getSize()==tot,"number of annotations"); for(int j=0;j<f.n&&j<b.n;++j) SX_ASSERT(f.v[j]==b.v[f.n-1-j],"backward is the reverse"); for(int j=0;j+1<f.n;++j) if(f.v[j]>=0&&f.v[j+1]>=0) SX_ASSERT(!befAn(f.v[j+1],f.v[j]),"begin ascending, end descending, then type priority"); for(int j=0;j<f.n;++j) symx_observe(f.v[j]); }
SYMX_SCENARIO_SETUP(types,setup){ int n=3; for(int i=0;i<n;++i){ mkAn(sx_choose(nm("ty",i),3),sx_i32(nm("b",i)),sx_i32(nm("e",i))); addAn(i); } checkAn(uima::internal::gs_tyAnnotationType); checkAn(X_); symx_reached("types"); }
SYMX_SCENARIO_SETUP(one_type,setup){ int n=symx_thorough()?4:3; for(int i=0;i<n;++i){ mkAn(1,sx_i32(nm("b",i)),sx_i32(nm("e",i))); addAn(i); } checkAn(Y_); checkAn(uima::internal::gs_tyAnnotationType); symx_reached("one type"); }
SYMX_SCENARIO_SETUP(same_begin,setup){ int n=4,b=sx_i32("b"); for(int i=0;i<n;++i){ mkAn(i<3?i:sx_choose("ty3",3),b,sx_i32(nm("e",i))); addAn(i); } checkAn(uima::internal::gs_tyAnnotationType); symx_reached("same begin"); }
SYMX_SCENARIO_SETUP(same_span,setup){ int n=symx_thorough()?5:4,b=sx_i32("b"),e=sx_i32("e"); for(int i=0;i<n;++i){ mkAn(sx_choose(nm("ty",i),3),b,e); addAn(i); } checkAn(uima::internal::gs_tyAnnotationType); checkAn(X_); checkAn(Z_); symx_reached("same span"); }
SYMX_SCENARIO_SETUP(removed,setup){ int n=3; for(int i=0;i<n;++i){ mkAn(i%2,sx_i32(nm("b",i)),sx_i32(nm("e",i))); addAn(i); if(i==1&&sx_choose("look",2)) checkAn(uima::internal::gs_tyAnnotationType); } int j=sx_choose("j",3); c_->getIndexRepository().removeFS(a_[j].fs); a_[j].in=false; checkAn(uima::internal::gs_tyAnnotationType); checkAn(X_); symx_reached("removed"); }
SYMX_SCENARIO_SETUP(deep_many,setup){ int n=5; for(int i=0;i<n;++i){ mkAn(i%3,sx_i32(nm("b",i)),0); addAn(i); } checkAn(uima::internal::gs_tyAnnotationType); symx_reached("types"); }
SYMX_SCENARIO_SETUP(large,setup){ int n=30; for(int i=0;i<n;++i){ int b=(i*7%n)/4*5; mkAn(i*5%3,b,b+(i*11%n)/5*3); addAn(i); } if(sx_choose("look",2)) checkAn(uima::internal::gs_tyAnnotationType); mkAn(sx_choose("ty",3),sx_i32("b"),sx_i32("e")); addAn(n); checkAn(uima::internal::gs_tyAnnotationType); checkAn(X_); int j=sx_choose("j",3); if(j<2) j*=7; else j=n; c_->getIndexRepository().removeFS(a_[j].fs); a_[j].in=false; checkAn(uima::internal::gs_tyAnnotationType); checkAn(Y_); symx_reached("large"); }
