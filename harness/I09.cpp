// I09: subiterators and unambiguous iteration.
// BOUND: up to 3 (thorough 4) annotations of any begin <= end in 0..255 (thorough, and with one type: 0..2^30; positions are only compared), of one or three types, and a bounding annotation that is indexed, not indexed or equal in span to others; ambiguous and unambiguous subiterators over the whole index and one type; first to last and back, copies, moveTo of a member, programs of 3 (thorough 5) moves; unambiguous iteration forward
// BOUND: also subiterators over 12 annotations with fixed nested and overlapping spans, bounded by one of any type and span, and unambiguous iteration of 20 such annotations and one of any span
// OUTSIDE: negative positions; the same annotation added twice; backward moves of ANIndex::unambiguousIterator, which refuses them
#include "ann.hpp"
static bool small_=false; // positions 0..255
static void setup(){ annSetup(); na_=0; small_=!symx_thorough(); }
static void span(const char* p,int i,int& b,int& e){ if(small_){ b=sx_u8(nm(p,i,"b")); e=sx_u8(nm(p,i,"e")); symx_assume(b<=e); return; } b=sx_i32(nm(p,i,"b")); e=sx_i32(nm(p,i,"e")); symx_assume((b>=0)&(b<=e)&(e<=(1<<30))); }
// expected: members not before the bounding one in index order (those placed before it excluded), beginning in its span
static SeqA expect(SeqA const& all,int bound,bool unamb){ SeqA s={}; int start=0; bool in=false; for(int i=0;i<all.n;++i) if(all.v[i]==bound){ start=i+1; in=true; } if(!in){ start=all.n; for(int i=all.n-1;i>=0;--i) if(!befAn(all.v[i],bound)) start=i; } An& B=a_[bound]; int last=-1; for(int i=start;i<all.n;++i){ An& x=a_[all.v[i]]; if(!((x.b>=B.b)&(x.b<B.e))) break; if(unamb&&last>=0&&x.b<a_[last].e) continue; last=all.v[i]; s.v[s.n++]=last; } return s; }
static void same(SeqA const& a,SeqA const& w,const char* l){ SX_ASSERT(a.n==w.n,l); for(int i=0;i<a.n&&i<w.n;++i) SX_ASSERT(a.v[i]==w.v[i],l); }
static void rev(SeqA const& a,SeqA const& w,const char* l){ SX_ASSERT(a.n==w.n,l); for(int i=0;i<a.n&&i<w.n;++i) SX_ASSERT(a.v[i]==w.v[w.n-1-i],l); }
static void fill(int n,bool types){ for(int i=0;i<n;++i){ int b,e; span("s",i,b,e); mkAn(types?sx_choose(nm("ty",i),3):1,b,e); addAn(i); } }
static int bounding(bool indexed,int ty){ int b,e; span("w",0,b,e); int i=mkAn(ty,b,e); if(indexed) addAn(i); return i; }
static void sub(int n,bool types,bool unamb){ fill(n,types); int w=bounding(sx_choose("in",2),types?sx_choose("tw",3):1); ll::TyFSType t=types?(ll::TyFSType)uima::internal::gs_tyAnnotationType:Y_; ANIndex ix=c_->getAnnotationIndex(hT(t)); SeqA all=fwdA(ix.iterator()); SeqA want=expect(all,w,unamb); ANIterator it=ix.subIterator(a_[w].fs,unamb?enUnambiguous:enAmbiguous);
  SX_ASSERT(it.isValid()==(want.n>0),"a new subiterator stands on its first element"); same(fwdA(it),want,unamb?"unambiguous subiterator":"subiterator"); rev(bwdA(it),want,unamb?"unambiguous subiterator backward":"subiterator backward"); for(int i=0;i<want.n;++i) symx_observe(want.v[i]); symx_reached(unamb?"unambiguous sub":"sub"); }
SYMX_SCENARIO_SETUP(sub_one,setup){ small_=false; sub(symx_thorough()?3:2,false,false); }
SYMX_SCENARIO_SETUP(sub_types,setup){ sub(2,true,false); }
SYMX_SCENARIO_SETUP(unamb_one,setup){ small_=false; sub(symx_thorough()?3:2,false,true); }
SYMX_SCENARIO_SETUP(unamb_types,setup){ sub(2,true,true); }
// three nested or chained annotations of the same begin as the bounding one
SYMX_SCENARIO_SETUP(sub_three,setup){ int w=0; bool un=sx_choose("un",2); { int b,e; span("w",0,b,e); mkAn(1,b,e); addAn(0); } for(int i=1;i<4;++i){ int b,e; span("s",i,b,e); symx_assume((b>=a_[0].b)&(b<=a_[0].b+2)&(e<=b+3)); mkAn(1,b,e); addAn(i); } symx_assume(a_[0].e<=a_[0].b+4); ANIndex ix=c_->getAnnotationIndex(hT(Y_)); SeqA all=fwdA(ix.iterator()),want=expect(all,w,un); ANIterator it=a_[0].fs.subIterator(hT(Y_),un?enUnambiguous:enAmbiguous); same(fwdA(it),want,"three annotations under one"); rev(bwdA(it),want,"three annotations under one, backward"); symx_reached("three"); }
static void prog(ANIterator it,SeqA const& s){ int pos=s.n?0:-1; int steps=symx_thorough()?5:3; for(int i=0;i<steps;++i){ int op=sx_choose(nm("op",i),6); switch(op){ case 0: it.moveToFirst(); pos=s.n?0:-1; break; case 1: it.moveToLast(); pos=s.n-1; break; case 2: if(pos<0) return; it.moveToNext(); pos=pos+1<s.n?pos+1:-1; break; case 3: if(pos<0) return; it.moveToPrevious(); --pos; break; case 4: { ANIterator c(it); if(pos>=0) it.moveToNext(); it=c; break; } default: { if(!s.n) return; pos=s.n-1; it.moveTo(a_[s.v[pos]].fs); } } SX_ASSERT(it.isValid()==(pos>=0),"validity in a program of moves"); if(pos>=0&&it.isValid()) SX_ASSERT(whoAn(it.get())==s.v[pos],"element in a program of moves"); } symx_reached("program"); }
SYMX_SCENARIO_SETUP(program,setup){ fill(2,false); int w=bounding(true,1); bool un=sx_choose("un",2); ANIndex ix=c_->getAnnotationIndex(hT(Y_)); SeqA all=fwdA(ix.iterator()); prog(ix.subIterator(a_[w].fs,un?enUnambiguous:enAmbiguous),expect(all,w,un)); }
// unambiguous iteration of a whole index
SYMX_SCENARIO_SETUP(unambiguous,setup){ small_=false; int n=symx_thorough()?4:3; fill(n,false); ANIndex ix=c_->getAnnotationIndex(hT(Y_)); SeqA all=fwdA(ix.iterator()),w={}; int last=-1; for(int i=0;i<all.n;++i){ if(last>=0&&a_[all.v[i]].b<a_[last].e) continue; last=all.v[i]; w.v[w.n++]=last; } ANIterator it=ix.unambiguousIterator(); same(fwdA(it),w,"unambiguous iteration"); ANIterator c(it); it.moveToFirst(); if(it.isValid()){ it.moveToNext(); ANIterator d(it); same(fwdA(d),w,"a copied unambiguous iterator"); } symx_reached("unambiguous"); }
// a covering annotation of another type
SYMX_SCENARIO_SETUP(covering,setup){ small_=false; fill(2,true); int b,e; span("w",0,b,e); int q=mkAn(sx_choose("tw",3),b,e); addAn(q); int t=sx_choose("of",3); AnnotationFS r=a_[q].fs.getFirstCoveringAnnotation(hT(tyX(t))); bool any=false,ok=false; for(int i=0;i<na_;++i){ bool of=a_[i].ty==t||(t==0&&a_[i].ty==2); if(of&&a_[i].ty!=a_[q].ty){ bool c=(a_[i].b<=b)&(a_[i].e>=e); any|=c; ok|=c&&r.isValid()&&r==a_[i].fs; } } SX_ASSERT(any?ok:!r.isValid(),"the covering annotation covers, and one is found when there is one"); symx_reached("covering"); }
static void fixed(int n,bool types){ for(int i=0;i<n;++i){ int b=(i*7%n)/3*4; mkAn(types?i*5%3:1,b,b+(i*11%n)*2/3); addAn(i); } }
SYMX_SCENARIO_SETUP(large_sub,setup){ small_=true; int n=12; bool un=sx_choose("un",2); fixed(n,true); int w=bounding(sx_choose("in",2),sx_choose("tw",3)); ANIndex ix=c_->getAnnotationIndex(hT(uima::internal::gs_tyAnnotationType)); SeqA all=fwdA(ix.iterator()),want=expect(all,w,un); ANIterator it=ix.subIterator(a_[w].fs,un?enUnambiguous:enAmbiguous); same(fwdA(it),want,"a large subiterator"); rev(bwdA(it),want,"a large subiterator backward"); symx_reached("large"); }
SYMX_SCENARIO_SETUP(large_unambiguous,setup){ small_=true; int n=20; fixed(n,false); int b,e; span("w",0,b,e); mkAn(1,b,e); addAn(n); ANIndex ix=c_->getAnnotationIndex(hT(Y_)); SeqA all=fwdA(ix.iterator()),w={}; int last=-1; for(int i=0;i<all.n;++i){ if(last>=0&&a_[all.v[i]].b<a_[last].e) continue; last=all.v[i]; w.v[w.n++]=last; } ANIterator it=ix.unambiguousIterator(); same(fwdA(it),w,"a large unambiguous iteration"); symx_reached("large"); }
