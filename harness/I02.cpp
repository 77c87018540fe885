// I02: set indexes keep one structure per key, bags keep every addition.
// BOUND: every history of 5 (thorough 7) additions and removals (of members, of non-members equal in keys, repeated additions) over at most 4 (thorough 5) structures with keys of any 32-bit value, for set indexes of one and two keys and bags over a single type; set and bag over three types with 4 additions and a removal
// BOUND: also set indexes and bags already holding 40 structures of three types with fixed keys, to which two structures of any type and key are added and from which one of five is removed
// OUTSIDE: longer histories; which of several equal structures of different types a set index over their supertype finds
#include "idx.hpp"
static void setup(){ idxSetup(); }
static bool in_[90];
static void addS(int o,int i){ rep().addFS(e_[i].fs); bool dup=false; for(int j=0;j<ne_;++j) if(in_[j]&&e_[j].ty==e_[i].ty&&keq(o,i,j)) dup=true; if(!dup) in_[i]=true; }
static void remS(int i){ rep().removeFS(e_[i].fs); in_[i]=false; }
static void checkSet(int o,int t){ FSIndex ix=rep().getIndex(US(LBL[o]),hT(tyOf(t))); Seq f=fwd(ix.iterator()),b=bwd(ix.iterator()); int tot=0;
  for(int i=0;i<ne_;++i){ int have=0,want=subT(t,e_[i].ty)&&in_[i]; for(int j=0;j<f.n;++j) have+=f.v[j]==i; SX_ASSERT(have==want,"a set index holds the first structure of each key and nothing else"); tot+=want; }
  SX_ASSERT(f.n==tot,"number of iterated structures"); SX_ASSERT((int)ix.getSize()==tot,"size"); SX_ASSERT(b.n==f.n,"backward length"); for(int j=0;j<f.n&&j<b.n;++j) SX_ASSERT(f.v[j]==b.v[f.n-1-j],"backward iteration is the reverse");
  if(t==3) for(int j=0;j+1<f.n;++j){ int x=f.v[j],y=f.v[j+1]; if(x>=0&&y>=0) SX_ASSERT((e_[x].k<e_[y].k)|((e_[x].k==e_[y].k)&(o==SET2)&(e_[x].k2<e_[y].k2)),"strictly increasing keys"); } for(int j=0;j<f.n;++j) symx_observe(f.v[j]); symx_reached(LBL[o]); }
static void histS(int o,int nop,int maxfs,bool types){ for(int i=0;i<90;++i) in_[i]=false; int n=0;
  for(int i=0;i<nop;++i){ int op=i==0?0:types?(i<nop-1?0:2):sx_choose(nm("op",i),3); if(op==0&&n==maxfs) op=1; if(op==0){ int ty=types?sx_choose(nm("ty",i),3):3; mkFS(ty,sx_i32(nm("k",n)),o==SET2?sx_i32(nm("l",n)):0); addS(o,n); ++n; continue; } int j=n==1?0:sx_choose(nm("j",i),n); if(op==1) addS(o,j); else remS(j); }
  if(types){ checkSet(o,0); } else { checkSet(o,3); int q=mkFS(3,sx_i32("kq"),o==SET2?sx_i32("lq"):0); FSIndex ix=rep().getIndex(US(LBL[o]),hT(D_)); FeatureStructure r=ix.find(e_[q].fs); bool any=false,hit=false; for(int i=0;i<q;++i) if(in_[i]){ bool e=keq(o,i,q); any|=e; hit|=e&(r==e_[i].fs); } SX_ASSERT(any?hit:!r.isValid(),"find returns the member with these keys"); } }
SYMX_SCENARIO_SETUP(set,setup){ histS(SET,symx_thorough()?6:5,symx_thorough()?4:3,false); }
SYMX_SCENARIO_SETUP(set2,setup){ histS(SET2,symx_thorough()?5:4,symx_thorough()?3:2,false); }
SYMX_SCENARIO_SETUP(set_types,setup){ histS(SET,symx_thorough()?5:4,4,true); }
// bag: every addition once, in order of addition within a type; one occurrence removed
static void bag(bool types){ int n=0,log[12],nl=0,nop=symx_thorough()?7:5; for(int i=0;i<nop;++i){ int op=i==0?0:sx_choose(nm("op",i),3); if(op==0&&n==3) op=1; if(op==0){ int ty=types?sx_choose(nm("ty",i),3):3; mkFS(ty,sx_i32(nm("k",n))); add(n); log[nl++]=n; ++n; continue; }
    int j=n==1?0:sx_choose(nm("j",i),n); if(op==1){ add(j); log[nl++]=j; } else { rem(j); for(int q=0;q<nl;++q) if(log[q]==j){ for(int r=q;r+1<nl;++r) log[r]=log[r+1]; --nl; break; } } }
  int t=types?0:3; FSIndex ix=rep().getIndex(US("bag"),hT(tyOf(t))); Seq f=fwd(ix.iterator()),b=bwd(ix.iterator()); SX_ASSERT((int)ix.getSize()==nl&&f.n==nl&&b.n==nl,"a bag keeps every addition");
  for(int i=0;i<n;++i){ int have=0; for(int j=0;j<f.n;++j) have+=f.v[j]==i; SX_ASSERT(have==e_[i].n,"each addition once"); } for(int j=0;j<f.n&&j<b.n;++j) SX_ASSERT(f.v[j]==b.v[f.n-1-j],"backward iteration of a bag");
  if(!types) for(int j=0;j<f.n&&j<nl;++j) SX_ASSERT(f.v[j]==log[j],"order of addition"); for(int i=0;i<n;++i){ FeatureStructure r=ix.find(e_[i].fs); SX_ASSERT(e_[i].n?r==e_[i].fs:!r.isValid(),"find in a bag"); } symx_reached("bag"); }
SYMX_SCENARIO_SETUP(bag_single,setup){ bag(false); }
SYMX_SCENARIO_SETUP(bag_types,setup){ bag(true); }
// grown set indexes and bags
static void largeS(int o){ for(int i=0;i<90;++i) in_[i]=false; int n=40; for(int i=0;i<n;++i){ mkFS(i%4,(i*7%n)/3*10-30,o==SET2?i%3:0); addS(o,i); } int q=mkFS(sx_choose("ty",4),sx_i32("k"),o==SET2?sx_choose("l",4)-1:0); addS(o,q); checkSet(o,e_[q].ty); int j=sx_choose("j",3); remS(j==2?q:j*5); checkSet(o,0); symx_reached("large"); }
SYMX_SCENARIO_SETUP(large_set,setup){ largeS(SET); }
SYMX_SCENARIO_SETUP(large_set2,setup){ largeS(SET2); }
SYMX_SCENARIO_SETUP(large_bag,setup){ int n=40; for(int i=0;i<n;++i){ mkFS(i%4,i); add(i); } int j=sx_choose("j",n); if(sx_choose("twice",2)) add(j); rem(j); FSIndex ix=rep().getIndex(US("bag")); Seq f=fwd(ix.iterator()); int tot=0; for(int i=0;i<n;++i){ int have=0; for(int q=0;q<f.n;++q) have+=f.v[q]==i; SX_ASSERT(have==e_[i].n,"each addition once"); tot+=e_[i].n; } SX_ASSERT(f.n==tot&&(int)ix.getSize()==tot,"size of the bag"); symx_reached("large"); }
