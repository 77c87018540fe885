// I01: sorted indexes keep key order and lose nothing.
// BOUND: every history of 5 (thorough 7) additions and removals (removal of indexed and of not indexed structures, repeated additions) over at most 4 (thorough 5) structures whose keys are any 32-bit values, for sorted indexes with an ascending, a descending, two (second descending) and a string key; every history is followed by forward and backward iteration, size, and find with a probe of any key
// BOUND: also an index already holding 40 (thorough 70) structures with fixed keys added in a fixed mixed order, to which one structure with any key is added and from which any one is removed
// OUTSIDE: longer histories; strings longer than one unit (the comparison itself is I10's)
#include "idx.hpp"
static void setup(){ idxSetup(); }
static int key(int i){ return strKeys_?sx_unit(nm("k",i)):sx_i32(nm("k",i)); }
static void hist(int o,int nop,int maxfs){ int n=0;
  for(int i=0;i<nop;++i){ int op=i==0?0:sx_choose(nm("op",i),3); // add new, add again, remove
    if(op==0){ if(n==maxfs) op=1; else { mkFS(3,key(n),o==TWO?sx_i32(nm("l",n)):0); add(n); ++n; continue; } }
    int j=n==1?0:sx_choose(nm("j",i),n); if(op==1) add(j); else rem(j); }
  checkOrdered(o,3); symx_reached(LBL[o]); }
static void probe(int o){ FSIndex ix=rep().getIndex(US(LBL[o]),hT(D_)); int n=ne_; int q=mkFS(3,key(9),o==TWO?sx_i32("l9"):0); FeatureStructure r=ix.find(e_[q].fs); bool any=false,hit=false; for(int i=0;i<n;++i) if(e_[i].n){ bool k=le(o,i,q)&le(o,q,i); any|=k; hit|=k&(r==e_[i].fs); }
  SX_ASSERT(any?hit:!r.isValid(),"find returns an equal member exactly when there is one"); symx_reached("find"); }
SYMX_SCENARIO_SETUP(asc,setup){ hist(ASC,symx_thorough()?7:5,symx_thorough()?5:4); }
SYMX_SCENARIO_SETUP(desc,setup){ hist(DESC,symx_thorough()?6:5,4); }
SYMX_SCENARIO_SETUP(two,setup){ hist(TWO,symx_thorough()?5:4,3); }
SYMX_SCENARIO_SETUP(str,setup){ strKeys_=true; hist(STR,symx_thorough()?6:4,3); strKeys_=false; }
static void adds(int o){ int n=sx_choose("n",symx_thorough()?4:3); for(int i=0;i<n;++i){ mkFS(3,key(i),o==TWO?sx_i32(nm("l",i)):0); add(i); } probe(o); }
SYMX_SCENARIO_SETUP(find_asc,setup){ adds(ASC); }
SYMX_SCENARIO_SETUP(find_desc,setup){ adds(DESC); }
SYMX_SCENARIO_SETUP(find_two,setup){ adds(TWO); }
SYMX_SCENARIO_SETUP(find_str,setup){ strKeys_=true; adds(STR); strKeys_=false; }
// an index that has outgrown its initial allocation
static void large(int o){ int n=symx_thorough()?70:40; for(int i=0;i<n;++i){ mkFS(3,(i*7%n)/2*10-30,o==TWO?i%3:0); add(i); } int q=mkFS(3,key(9),o==TWO?sx_choose("l9",4)-1:0); add(q); checkOrdered(o,3); int j=sx_choose("j",4); rem(j==3?q:j*5); checkOrdered(o,3); if(j<2){ add(j*5); checkOrdered(o,3); } symx_reached("large"); }
SYMX_SCENARIO_SETUP(large_asc,setup){ large(ASC); }
SYMX_SCENARIO_SETUP(large_desc,setup){ large(DESC); }
SYMX_SCENARIO_SETUP(large_two,setup){ large(TWO); }
