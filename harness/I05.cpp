// I05: a cursor moves as over the list of its index.
// BOUND: every program of 4 (thorough 6) moves (first, last, next, previous, both peeks, copy, assign) over sorted, set, bag, restricted, filtered and type-set iterators of 0..3 structures with any keys
// BOUND: up to 7 structures among which several have equal keys, from any start, two (thorough three) looks and moves
// OUTSIDE: moves of an invalid cursor other than first and last; changing the index while a cursor stands in it
#include "idx.hpp"
struct PosF : public FSFilter { bool isFiltered(FeatureStructure const& f) const { return f.getIntValue(hF(k_))<0; } };
static void setup(){ idxSetup(); }
static void prog(FSIterator it,Seq const& s){ int pos=s.n?0:-1; FSIterator other; int opos=-2; int steps=symx_thorough()?6:4;
  SX_ASSERT(it.isValid()==(pos>=0),"a new cursor stands on the first element"); 
  for(int i=0;i<steps;++i){ int op=sx_choose(nm("op",i),8); switch(op){
      case 0: it.moveToFirst(); pos=s.n?0:-1; break; case 1: it.moveToLast(); pos=s.n-1; break;
      case 2: if(pos<0) return; it.moveToNext(); pos=pos+1<s.n?pos+1:-1; break; case 3: if(pos<0) return; it.moveToPrevious(); pos=pos-1; break;
      case 4: { if(pos<0) return; FeatureStructure p=it.peekNext(); int w=pos+1<s.n?s.v[pos+1]:-1; SX_ASSERT(w<0?!p.isValid():p==e_[w].fs,"peekNext"); break; }
      case 5: { if(pos<0) return; FeatureStructure p=it.peekPrevious(); int w=pos>0?s.v[pos-1]:-1; SX_ASSERT(w<0?!p.isValid():p==e_[w].fs,"peekPrevious"); break; }
      case 6: { other=it; opos=pos; break; }
      default: { if(opos==-2) return; FSIterator t(it); it=other; other=t; int q=pos; pos=opos; opos=q; } }
    SX_ASSERT(it.isValid()==(pos>=0),"validity of the cursor"); if(pos>=0&&it.isValid()) SX_ASSERT(it.get()==e_[s.v[pos]].fs,"element under the cursor"); if(opos!=-2){ SX_ASSERT(other.isValid()==(opos>=0),"a copy stays where it is"); if(opos>=0&&other.isValid()) SX_ASSERT(other.get()==e_[s.v[opos]].fs,"a copy keeps its element"); } }
  symx_observe(pos+1); symx_reached("program"); }
static void fill(bool types,int max=2){ int n=sx_choose("n",max+1); for(int i=0;i<n;++i){ mkFS(types?(i%2?1:0):3,sx_i32(nm("k",i)),0); add(i); } }
static FSIndex ix(int o,ll::TyFSType t){ return rep().getIndex(US(LBL[o]),hT(t)); }
SYMX_SCENARIO_SETUP(sorted,setup){ fill(false,symx_thorough()?3:2); FSIndex x=ix(ASC,D_); prog(x.iterator(),fwd(x.iterator())); }
SYMX_SCENARIO_SETUP(merged,setup){ fill(true,symx_thorough()?3:2); FSIndex x=ix(ASC,A_); prog(x.iterator(),fwd(x.iterator())); }
SYMX_SCENARIO_SETUP(set,setup){ fill(false,2); FSIndex x=ix(SET,D_); prog(x.iterator(),fwd(x.iterator())); }
SYMX_SCENARIO_SETUP(set_merged,setup){ fill(true,2); FSIndex x=ix(SET,A_); prog(x.iterator(),fwd(x.iterator())); }
SYMX_SCENARIO_SETUP(bag,setup){ fill(false,symx_thorough()?3:2); FSIndex x=ix(BAG,D_); prog(x.iterator(),fwd(x.iterator())); }
SYMX_SCENARIO_SETUP(bag_merged,setup){ fill(true,symx_thorough()?3:2); FSIndex x=ix(BAG,A_); prog(x.iterator(),fwd(x.iterator())); }
SYMX_SCENARIO_SETUP(filtered,setup){ fill(false,symx_thorough()?3:2); FSIndex x=ix(BAG,D_); static PosF f; Seq s=fwd(x.iterator()),g={}; for(int i=0;i<s.n;++i) if(e_[s.v[i]].k>=0) g.v[g.n++]=s.v[i]; prog(x.filteredIterator(&f),g); }
SYMX_SCENARIO_SETUP(typeset,setup){ fill(true,3); std::set<Type> ts; ts.insert(hT(B_)); FSIndex x=ix(BAG,A_); Seq s=fwd(x.iterator()),g={}; for(int i=0;i<s.n;++i) if(e_[s.v[i]].ty==1) g.v[g.n++]=s.v[i]; prog(x.typeSetIterator(ts),g); }
// cursors that stand nowhere
SYMX_SCENARIO_SETUP(empty,setup){ FSIterator a; SX_ASSERT(!a.isValid(),"a cursor without index is not valid"); FSIterator b(a); SX_ASSERT(!b.isValid(),"a copy of it neither"); FSIterator c=ix(ASC,D_).iterator(); SX_ASSERT(!c.isValid(),"empty index"); c=a; SX_ASSERT(!c.isValid(),"assigned"); a=ix(ASC,D_).iterator(); SX_ASSERT(!a.isValid(),"assigned from an empty index"); symx_reached("empty"); }
// several equal elements
static int tk_; static void ties(int n,bool types){ for(int i=0;i<n;++i){ mkFS(types?(i%2?1:0):3,tk_==0?7:tk_==1?i/2:tk_==2?-i%3:sx_choose(nm("k",i),2),0); add(i); } }
static void prog2(FSIterator it,Seq const& s){ SX_ASSERT(s.n>=4,"all there"); int pos=sx_choose("start",s.n); it.moveToFirst(); for(int i=0;i<pos;++i) it.moveToNext(); int steps=symx_thorough()?3:2; for(int i=0;i<steps;++i){ int op=sx_choose(nm("op",i),4); FeatureStructure p; int w=-1; if(op==0){ p=it.peekNext(); w=pos+1<s.n?s.v[pos+1]:-1; } else if(op==1){ p=it.peekPrevious(); w=pos>0?s.v[pos-1]:-1; } else if(op==2){ it.moveToNext(); ++pos; } else { it.moveToPrevious(); --pos; } if(op<2) SX_ASSERT(w<0?!p.isValid():p==e_[w].fs,"a look at the neighbour among equal elements"); bool v=pos>=0&&pos<s.n; SX_ASSERT(it.isValid()==v,"validity among equal elements"); if(!v) return; SX_ASSERT(it.get()==e_[s.v[pos]].fs,"element under the cursor among equal ones"); } symx_reached("ties"); }
static void tied(int o,bool types){ tk_=sx_choose("keys",4); ties(tk_==3?4:7,types); FSIndex x=ix(o,types?A_:D_); prog2(x.iterator(),fwd(x.iterator())); }
SYMX_SCENARIO_SETUP(ties_sorted,setup){ tied(ASC,false); }
SYMX_SCENARIO_SETUP(ties_merged,setup){ tied(ASC,true); }
SYMX_SCENARIO_SETUP(ties_bag,setup){ tied(BAG,sx_choose("types",2)); }
