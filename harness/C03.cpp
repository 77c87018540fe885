// C03: list feature structures.
// BOUND: two list handles built with 0..2 and 0..1 elements, then every sequence of 2 (thorough: 3) operations out of addFirst, addLast, append, prepend, setHead, moveToNext, removeElement and setTail on either handle, for each of the four list kinds, with symbolic element values (all int and float bit patterns, one-unit strings, two feature structures); after every operation both lists are read through head/tail, length and emptiness
// BOUND: lists of 24 integers, floats or strings, one of five of them any value, another list of 3 appended or prepended or that element removed
// OUTSIDE: longer lists (getLastListElement walks one node at a time), operations that would make a list circular other than appending a list to itself
#include "cascommon.hpp"
struct N { uint64_t v; N* next; bool e; };
static N pool[64]; static int np; static N* E_(){ N* n=&pool[np++]; n->e=true; n->v=0; n->next=0; return n; } static N* NE(uint64_t v,N* t){ N* n=&pool[np++]; n->e=false; n->v=v; n->next=t; return n; }
static FeatureStructure tg[2]; static ll::TyFSType H; static ll::TyFSFeature fl,fi,ff,fs_;
static void types(HDef& D){ using namespace uima::internal; H=D.type(D.ts().getTopType(),"T.H"); fl=D.feat(H,gs_tyFSListType,"fl"); fi=D.feat(H,gs_tyIntListType,"fi"); ff=D.feat(H,gs_tyFloatListType,"ff"); fs_=D.feat(H,gs_tyStringListType,"fs"); }
static void setup(){ hSetup(types,nullptr); }
static char16_t cbuf[1024]; static int ncb;
struct LI { typedef IntListFS L; typedef int T; static L mk(){ return g_cas->createIntListFS(); } static T val(uint64_t v){ return (int)v; } static uint64_t bits(T t){ return (uint32_t)t; } static uint64_t in(const char* n){ return sx_u32(n); } static bool eq(uint64_t a,uint64_t b){ return a==b; } static L get(FeatureStructure f){ return f.getIntListFSValue(hF(fi)); } static Feature F(){ return hF(fi); } };
struct LF { typedef FloatListFS L; typedef float T; static L mk(){ return g_cas->createFloatListFS(); } static T val(uint64_t v){ return ffrom((uint32_t)v); } static uint64_t bits(T t){ return fbits(t); } static uint64_t in(const char* n){ return sx_u32(n); } static bool eq(uint64_t a,uint64_t b){ return ffrom((uint32_t)a)==ffrom((uint32_t)b); } static L get(FeatureStructure f){ return f.getFloatListFSValue(hF(ff)); } static Feature F(){ return hF(ff); } };
struct LS { typedef StringListFS L; typedef UnicodeStringRef T; static L mk(){ return g_cas->createStringListFS(); } static T val(uint64_t v){ char16_t* p=&cbuf[ncb++]; *p=(char16_t)v; return UnicodeStringRef(p,1); } static uint64_t bits(T t){ return t.length()==1?t.getBuffer()[0]:0xffffff; } static uint64_t in(const char* n){ uint64_t v=sx_u16(n); symx_assume(v!=0); return v; } static bool eq(uint64_t a,uint64_t b){ return a==b; } static L get(FeatureStructure f){ return f.getStringListFSValue(hF(fs_)); } static Feature F(){ return hF(fs_); } };
struct LR { typedef ListFS L; typedef FeatureStructure T; static L mk(){ return g_cas->createListFS(); } static T val(uint64_t v){ return tg[v&1]; } static uint64_t bits(T t){ return t==tg[0]?0:t==tg[1]?1:7; } static uint64_t in(const char* n){ return sx_choose(n,2); } static bool eq(uint64_t a,uint64_t b){ return a==b; } static L get(FeatureStructure f){ return f.getListFSValue(hF(fl)); } static Feature F(){ return hF(fl); } };
template<class K> static void same(typename K::L l,N* m){ typedef typename K::L L; int n=0; for(N* x=m;!x->e;x=x->next) ++n; SX_ASSERT((int)l.getLength()==n,"length");
  for(int k=0;k<=n;++k){ SX_ASSERT(l.isEmpty()==m->e,"emptiness"); if(m->e||l.isEmpty()) break; SX_ASSERT(K::bits(l.getHead())==m->v,"element"); symx_observe(K::bits(l.getHead())); if(k&1) l=L(l.getTail()); else l.moveToNext(); m=m->next; }
  SX_ASSERT(throwsUima([&]{ l.getHead(); })&&throwsUima([&]{ l.getTail(); })&&throwsUima([&]{ l.moveToNext(); }),"an empty list has no head or tail"); }
static bool reaches(N* a,N* b){ for(;;a=a->next){ if(a==b) return true; if(a->e) return false; } }
static bool share(N* a,N* b){ for(N* x=a;;x=x->next){ if(!x->e&&reaches(b,x)) return true; if(x->e) return false; } }
template<class K> static void ops(int W){ typedef typename K::L L; typedef typename K::T T; np=0; ncb=0; L l[2]={K::mk(),K::mk()}; N* m[2]={E_(),E_()};
  int n0=sx_choose("n0",3),n1=sx_choose("n1",2); uint64_t v0[3];
  for(int i=0;i<n0;++i){ v0[i]=K::in(NM("a",i)); l[0].addLast(K::val(v0[i])); N* e=m[0]; if(e->e) m[0]=NE(v0[i],e); else { while(!e->next->e) e=e->next; e->next=NE(v0[i],e->next); } }
  if(n1){ uint64_t v=K::in("b"); l[1].addFirst(K::val(v)); m[1]=NE(v,m[1]); }
  for(int w=0;w<W;++w){ int op=sx_choose(NM("op",w),8),k=sx_choose(NM("k",w),2); L& x=l[k]; N*& y=m[k]; L& o=l[1-k]; N*& p=m[1-k]; uint64_t v=0; if(op==0||op==1||op==4||op==6) v=K::in(NM("v",w));
    switch(op){
    case 0: { L r=x.addFirst(K::val(v)); y=NE(v,y); SX_ASSERT(r==x,"addFirst returns the list"); break; }
    case 1: { L r=x.addLast(K::val(v)); if(y->e) y=NE(v,y); else { N* e=y; while(!e->next->e) e=e->next; e->next=NE(v,e->next); } SX_ASSERT(K::bits(r.getHead())==v&&r.getTail().isEmpty(),"addLast returns the last node"); break; }
    case 2: case 3: { bool self=(x==o); SX_ASSERT(self==(y==p),"handle identity"); if(self){ SX_ASSERT(throwsUima([&]{ if(op==2) x.append(o); else x.prepend(o); })==!y->e,"appending a list to itself is refused"); break; }
      if(share(y,p)) break; symx_reached("append"); if(op==2){ x.append(o); if(y->e) y=p; else { N* e=y; while(!e->next->e) e=e->next; e->next=p; } } else { x.prepend(o); if(!p->e){ N* e=p; while(!e->next->e) e=e->next; e->next=y; y=p; } } break; }
    case 4: { T t=K::val(v); bool th=throwsUima([&]{ x.setHead(t); }); SX_ASSERT(th==y->e,"setHead refuses exactly an empty list"); if(!y->e) y->v=v; break; }
    case 5: { bool th=throwsUima([&]{ x.moveToNext(); }); SX_ASSERT(th==y->e,"moveToNext refuses exactly an empty list"); if(!y->e) y=y->next; break; }
    case 6: { L r(x.removeElement(K::val(v))); N* f=y; N* q=0; while(!f->e&&!K::eq(f->v,v)){ q=f; f=f->next; } if(f->e){ SX_ASSERT(!r.isValid(),"nothing removed"); } else { symx_reached("removed"); SX_ASSERT(r.isValid()&&K::bits(r.getHead())==f->v&&(int)r.getLength()==1,"removed element returned as a list of its own"); if(q) q->next=f->next; else y=f->next; f->next=E_(); } break; }
    case 7: { if(!y->e&&reaches(p,y)) break; bool th=throwsUima([&]{ x.setTail(o); }); SX_ASSERT(th==y->e,"setTail refuses exactly an empty list"); if(!y->e) y->next=p; break; } }
    same<K>(l[0],m[0]); same<K>(l[1],m[1]); }
  symx_reached("operations"); }
static void mkT(){ for(int i=0;i<2;++i) tg[i]=g_cas->createFS(hT(H)); }
SYMX_SCENARIO_SETUP(ints,setup){ ops<LI>(symx_thorough()?3:2); }
SYMX_SCENARIO_SETUP(floats,setup){ ops<LF>(symx_thorough()?3:2); }
SYMX_SCENARIO_SETUP(strings,setup){ ops<LS>(symx_thorough()?3:2); }
SYMX_SCENARIO_SETUP(refs,setup){ mkT(); ops<LR>(symx_thorough()?3:2); }
// list-valued features
template<class K> static void feature(){ typedef typename K::L L; ncb=0; FeatureStructure h=g_cas->createFS(hT(H)),h2=g_cas->createFS(hT(H));
  SX_ASSERT(!h.hasListElements(K::F()),"untouched list feature has no elements"); SX_ASSERT(h.isUntouchedFSValue(K::F()),"asking does not touch"); L l=K::get(h); SX_ASSERT(l.isValid()&&l.isEmpty()&&K::get(h)==l&&!h.hasListElements(K::F()),"list created on the fly is empty and stays");
  int n=sx_choose("n",3); uint64_t v[3]; for(int i=0;i<n;++i){ v[i]=K::in(NM("v",i)); l.addLast(K::val(v[i])); } h.setFSValue(K::F(),l); SX_ASSERT(h.hasListElements(K::F())==(n>0)&&!h2.hasListElements(K::F()),"list feature has elements"); L r=K::get(h); SX_ASSERT((int)r.getLength()==n,"list from feature"); for(int i=0;i<n;++i){ SX_ASSERT(K::bits(r.getHead())==v[i],"element from feature"); r.moveToNext(); } symx_reached("feature"); }
SYMX_SCENARIO_SETUP(feat_int,setup){ feature<LI>(); }
SYMX_SCENARIO_SETUP(feat_float,setup){ feature<LF>(); }
SYMX_SCENARIO_SETUP(feat_string,setup){ feature<LS>(); }
SYMX_SCENARIO_SETUP(feat_ref,setup){ mkT(); feature<LR>(); }
// longer lists
template<class K> static void longer(){ typedef typename K::L L; ncb=0; enum{N=24}; L l=K::mk(),o=K::mk(); uint64_t m[N+6]; int n=0; static const int AT[]={0,1,11,22,23}; int at=AT[sx_choose("at",5)]; for(int i=0;i<N;++i){ m[n]=i==at?K::in("v"):(uint64_t)(i%7+1); if(K::val(m[n])!=K::val(m[n])) symx_assume(false); l.addLast(K::val(m[n])); ++n; } for(int i=0;i<3;++i) o.addLast(K::val(i+20)); int op=sx_choose("op",4);
  if(op==1){ L r(l.removeElement(K::val(m[at]))); int f=0; while(f<n&&!K::eq(m[f],m[at])) ++f; SX_ASSERT(r.isValid()&&K::bits(r.getHead())==m[f],"removed from a long list"); for(int j=f;j+1<n;++j) m[j]=m[j+1]; --n; }
  else if(op==2){ l.append(o); for(int i=0;i<3;++i) m[n++]=i+20; } else if(op==3){ l.prepend(o); for(int j=n-1;j>=0;--j) m[j+3]=m[j]; for(int i=0;i<3;++i) m[i]=i+20; n+=3; }
  L x= op==3?o:l; if(op==3) x=l; SX_ASSERT((int)x.getLength()==n,"length of a long list"); unsigned bad=0; for(int j=0;j<n;++j){ SX_ASSERT(!x.isEmpty(),"long enough"); bad|=(unsigned)(K::bits(x.getHead())^m[j]); x.moveToNext(); } SX_ASSERT(bad==0&&x.isEmpty(),"elements of a long list in order"); symx_reached("longer"); }
SYMX_SCENARIO_SETUP(longer_int,setup){ longer<LI>(); }
SYMX_SCENARIO_SETUP(longer_float,setup){ longer<LF>(); }
SYMX_SCENARIO_SETUP(longer_string,setup){ longer<LS>(); }
