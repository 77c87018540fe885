// I04: an index on a type also holds its subtypes, merged in order.
// BOUND: 4 (thorough 5) structures of any of 4 types with any 32-bit keys in sorted (ascending, descending, two keys), set and bag indexes over a root type; every subtype's restriction of each; type-set iterators over every set of types; additions after a first iteration
// BOUND: also an index over four types already holding 40 structures with fixed keys in mixed order, iterated, to which a structure of any type and key is added and from which one of any type is removed
// OUTSIDE: deeper type trees
#include "idx.hpp"
static void setup(){ idxSetup(); }
static int N(){ return symx_thorough()?4:3; }
static void each(int o){ int n=N(); int late=sx_choose("late",2); for(int i=0;i<n;++i){ mkFS(sx_choose(nm("ty",i),4),sx_i32(nm("k",i)),o==TWO?sx_i32(nm("l",i)):0); add(i); if(late&&i==n-2) checkOrdered(o,0); } for(int t=0;t<4;++t) checkOrdered(o,t); symx_reached(LBL[o]); }
SYMX_SCENARIO_SETUP(asc,setup){ each(ASC); }
SYMX_SCENARIO_SETUP(desc,setup){ each(DESC); }
SYMX_SCENARIO_SETUP(two,setup){ int n=3; for(int i=0;i<n;++i){ mkFS(i==0?0:i==1?3:sx_choose(nm("ty",i),3),sx_i32(nm("k",i)),sx_i32(nm("l",i))); add(i); } for(int t=0;t<4;++t) checkOrdered(TWO,t); symx_reached("two"); }
SYMX_SCENARIO_SETUP(bag,setup){ int n=N(); for(int i=0;i<n;++i){ mkFS(sx_choose(nm("ty",i),4),sx_i32(nm("k",i))); int m=1+sx_choose(nm("m",i),2); while(m--) add(i); } for(int t=0;t<4;++t){ FSIndex ix=rep().getIndex(US("bag"),hT(tyOf(t))); Seq f=fwd(ix.iterator()),b=bwd(ix.iterator()); int tot=0; for(int i=0;i<n;++i){ int want=subT(t,e_[i].ty)?e_[i].n:0,have=0; for(int j=0;j<f.n;++j) have+=f.v[j]==i; SX_ASSERT(have==want,"the bag over a type holds its subtypes"); tot+=want; } SX_ASSERT(f.n==tot&&b.n==tot&&(int)ix.getSize()==tot,"size of the bag"); for(int j=0;j<f.n&&j<b.n;++j) SX_ASSERT(f.v[j]==b.v[f.n-1-j],"backward"); } symx_reached("bag"); }
SYMX_SCENARIO_SETUP(set,setup){ int n=N(); for(int i=0;i<n;++i){ mkFS(sx_choose(nm("ty",i),4),sx_i32(nm("k",i))); add(i); } for(int t=0;t<4;++t){ FSIndex ix=rep().getIndex(US("set"),hT(tyOf(t))); Seq f=fwd(ix.iterator()); int tot=0; for(int i=0;i<n;++i){ bool first=true; for(int j=0;j<i;++j) first=first&!((e_[j].ty==e_[i].ty)&(e_[j].k==e_[i].k)); int want=(subT(t,e_[i].ty)&&first)?1:0,have=0; for(int j=0;j<f.n;++j) have+=f.v[j]==i; SX_ASSERT(have==want,"one structure per key and type"); tot+=want; } SX_ASSERT(f.n==tot&&(int)ix.getSize()==tot,"size of the set"); } symx_reached("set"); }
// iterators over a set of types
SYMX_SCENARIO_SETUP(typeset,setup){ int n=3; for(int i=0;i<n;++i){ mkFS(sx_choose(nm("ty",i),4),sx_i32(nm("k",i))); add(i); } int m=sx_choose("mask",16); std::set<Type> ts; for(int t=0;t<4;++t) if(m>>t&1) ts.insert(hT(tyOf(t))); FSIndex ix=rep().getIndex(US("asc")); Seq f=fwd(ix.typeSetIterator(ts)),b=bwd(ix.typeSetIterator(ts)); int tot=0; for(int i=0;i<n;++i){ int want=m>>e_[i].ty&1,have=0; for(int j=0;j<f.n;++j) have+=f.v[j]==i; SX_ASSERT(have==want,"a type set iterator gives exactly the structures of these types"); tot+=want; } SX_ASSERT(f.n==tot&&b.n==tot,"length"); for(int j=0;j<f.n&&j<b.n;++j) SX_ASSERT(f.v[j]==b.v[f.n-1-j],"backward"); for(int j=0;j+1<f.n;++j) if(f.v[j]>=0&&f.v[j+1]>=0) SX_ASSERT(le(ASC,f.v[j],f.v[j+1]),"key order"); symx_reached("typeset"); }
// grown indexes
static void large(int o){ int n=40; for(int i=0;i<n;++i){ mkFS(i%3==2?3:i*5%4,(i*7%n)/3*10-30,o==TWO?i%3:0); add(i); } if(sx_choose("warm",2)) checkOrdered(o,0); int q=mkFS(sx_choose("ty",4),sx_i32("k"),o==TWO?sx_choose("l",4)-1:0); add(q); checkOrdered(o,0); int j=sx_choose("j",5); rem(j==4?q:j); checkOrdered(o,0); checkOrdered(o,1); symx_reached("large"); }
SYMX_SCENARIO_SETUP(large_asc,setup){ large(ASC); }
SYMX_SCENARIO_SETUP(large_desc,setup){ large(DESC); }
SYMX_SCENARIO_SETUP(large_two,setup){ large(TWO); }
