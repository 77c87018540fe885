// I03: removing a structure takes it out of every index, and only it.
// BOUND: 7 structures of one type with two different keys (any 32-bit), any one removed; 3 structures of any of 4 types (keys any 32-bit values) added to a repository with seven indexes in any order; any subset of indexes (over the leaf types and over supertypes) iterated before the removal of any one, removal of a never added structure with equal keys, a second removal, re-adding; two views holding the same structures
// OUTSIDE: more than seven structures (more than three with independent keys) in the repository at the removal (histories of one index are I01's and I02's)
#include "idx.hpp"
static void setup(){ idxSetup(); }
static bool in_[90];
static int countIn(FSIndex ix,int i){ Seq f=fwd(ix.iterator()); int n=0; for(int j=0;j<f.n;++j) n+=f.v[j]==i; return n; }
static void add3(int n,bool ty){ for(int i=0;i<n;++i){ mkFS(ty?sx_choose(nm("ty",i),symx_thorough()?4:3):3,sx_i32(nm("k",i)),0); add(i); } }
static void checkAll(int o,int top,bool sorted){ for(int t=top;;t=3){ if(sorted) checkOrdered(o,t); else { FSIndex ix=rep().getIndex(US(LBL[o]),hT(tyOf(t))); Seq f=fwd(ix.iterator()); int tot=0; for(int i=0;i<ne_;++i){ int want=subT(t,e_[i].ty)?e_[i].n:0,have=0; for(int j=0;j<f.n;++j) have+=f.v[j]==i; SX_ASSERT(have==want,"the bag holds what is left"); tot+=want; } SX_ASSERT(f.n==tot&&(int)ix.getSize()==tot,"size of the bag"); } if(t==3) break; } }
// every sorted kind: iterate (fills the caches), remove, look again
static void one(int o){ bool warm=sx_choose("warm",2); add3(3,true); if(warm){ fwd(rep().getIndex(US(LBL[o])).iterator()); bwd(rep().getIndex(US(LBL[o]),hT(B_)).iterator()); } int j=sx_choose("j",3); rem(j); checkOrdered(o,0); checkOrdered(o,1); checkOrdered(o,e_[j].ty); int q=sx_choose("again",3); if(q==1) rem(j); else if(q==2) add(j); if(q){ checkOrdered(o,0); checkOrdered(o,e_[j].ty); } symx_reached("removed"); }
SYMX_SCENARIO_SETUP(asc,setup){ one(ASC); }
SYMX_SCENARIO_SETUP(desc,setup){ one(DESC); }
SYMX_SCENARIO_SETUP(str,setup){ bool warm=sx_choose("warm",2); for(int i=0;i<3;++i){ strKeys_=true; mkFS(i%2?1:0,sx_unit(nm("k",i))); strKeys_=false; add(i); } if(warm) fwd(rep().getIndex(US("str")).iterator()); rem(sx_choose("j",3)); checkOrdered(STR,0); checkOrdered(STR,1); symx_reached("removed"); }
SYMX_SCENARIO_SETUP(bag,setup){ bool warm=sx_choose("warm",2); add3(3,true); if(warm) fwd(rep().getIndex(US("bag")).iterator()); int j=sx_choose("j",3); rem(j); checkAll(BAG,0,false); checkAll(BAG,1,false); rem(j); checkAll(BAG,0,false); symx_reached("removed"); }
// a set index over several types: the structure removed is gone from it, a representative never removed stays
SYMX_SCENARIO_SETUP(set,setup){ bool warm=sx_choose("warm",2); add3(3,true); if(warm) fwd(rep().getIndex(US("set")).iterator()); int j=sx_choose("j",3); bool was[3]; for(int i=0;i<3;++i) was[i]=countIn(rep().getIndex(US("set")),i)>0; rem(j); for(int i=0;i<3;++i){ int c=countIn(rep().getIndex(US("set")),i),d=countIn(rep().getIndex(US("set"),hT(tyOf(e_[i].ty))),i); if(i==j){ SX_ASSERT(c==0&&d==0,"the removed structure is gone from the set index"); } else if(was[i]) SX_ASSERT(c==1&&d==1,"another structure stays in the set index"); } symx_reached("removed"); }
// a structure that was never added is removed: nothing changes
static void stranger(int o){ bool warm=sx_choose("warm",2); add3(2,false); if(warm) fwd(rep().getIndex(US(LBL[o])).iterator()); int q=mkFS(3,sx_i32("kq")); if(sx_choose("unequal",2)) symx_assume((e_[q].k!=e_[0].k)&(e_[q].k!=e_[1].k)); rep().removeFS(e_[q].fs); if(o==SET||o==SET2){ for(int i=0;i<2;++i){ bool f=i==0||e_[1].k!=e_[0].k; SX_ASSERT(countIn(rep().getIndex(US(LBL[o]),hT(D_)),i)==(f?1:0),"removing a stranger leaves the set index alone"); } } else checkOrdered(o,3); symx_reached("stranger"); }
SYMX_SCENARIO_SETUP(stranger_asc,setup){ stranger(ASC); }
SYMX_SCENARIO_SETUP(stranger_desc,setup){ stranger(DESC); }
SYMX_SCENARIO_SETUP(stranger_set,setup){ stranger(SET); }
SYMX_SCENARIO_SETUP(stranger_bag,setup){ stranger(BAG); }
// all indexes at once, and another view is not touched
SYMX_SCENARIO_SETUP(views,setup){ CAS* v=c_->createView(US("v2")); for(int i=0;i<2;++i){ mkFS(sx_choose(nm("ty",i),3),sx_i32(nm("k",i))); add(i); rep(v).addFS(e_[i].fs); } fwd(rep(v).getIndex(US("asc")).iterator()); fwd(rep().getIndex(US("asc")).iterator()); int j=sx_choose("j",2); rem(j); for(int o=0;o<7;++o){ SX_ASSERT(countIn(rep().getIndex(US(LBL[o])),j)==0,"gone from every index of the view"); if(o<4||o==BAG) for(int i=0;i<2;++i) SX_ASSERT(countIn(rep(v).getIndex(US(LBL[o])),i)==1,"the other view keeps it"); } checkOrdered(ASC,0); e_[j].n=1; checkOrdered(ASC,0,v); symx_reached("views"); }
// many structures of two keys: any one of them is removed, whatever its place among its equals
SYMX_SCENARIO_SETUP(many,setup){ int o=sx_choose("o",4); int lo=sx_i32("lo"),hi=sx_i32("hi"); symx_assume(lo<hi); int n=symx_thorough()?9:7; for(int i=0;i<n;++i){ mkFS(3,i<n-3?lo:(sx_choose(nm("w",i),2)?hi:lo)); add(i); } int j=sx_choose("j",n); rem(j); static const int O[]={ASC,DESC,TWO,BAG}; if(O[o]==BAG) checkAll(BAG,3,false); else checkOrdered(O[o],3); symx_reached("many"); }
