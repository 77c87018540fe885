// I06: moveTo stands on the structure or the first one not before it.
// BOUND: 0..3 (thorough 4) structures with any 32-bit keys, a member or a stranger with any key as argument, sorted indexes (ascending, descending, two keys) over one and over several types, set indexes over one type, bags; cursor on any element before the move; one move in each direction after it
// BOUND: also the annotation index over 2..3 annotations of two types with any spans, argument a member or a stranger of either type
// BOUND: also sorted indexes over one and four types, set indexes and bags of 40 structures with fixed keys, argument one of four members or a stranger with any key
// OUTSIDE: set indexes over several types; where the cursor stands when every member is before the argument (only that it then stands on a member or nowhere)
#include "idx.hpp"
namespace an {
#include "ann.hpp"
}
static void setup(){ idxSetup(); }
static bool lt(int o,int a,int b){ return !le(o,b,a); }
static void rest(int o,bool types,bool twice,int n,int w,Seq const& s,FSIterator it);
static void go(int o,bool types,int max){ int n=sx_choose("n",max+1); for(int i=0;i<n;++i){ mkFS(types?(i%2?1:0):3,sx_i32(nm("k",i)),o==TWO?sx_i32(nm("l",i)):0); add(i); }
  int w=sx_choose("arg",n+1); if(w==n) mkFS(types?sx_choose("tq",2):3,sx_i32("kq"),o==TWO?sx_i32("lq"):0); bool twice=n>0&&o!=SET&&sx_choose("twice",2); if(twice) add(0);
  FSIndex x=rep().getIndex(US(LBL[o]),hT(types?A_:D_)); Seq s=fwd(x.iterator()); FSIterator it=x.iterator(); int p=sx_choose("at",3); if(p==1) it.moveToLast(); else if(p==2&&it.isValid()) it.moveToNext();
  rest(o,types,twice,n,w,s,it); }
static void rest(int o,bool types,bool twice,int n,int w,Seq const& s,FSIterator it){ it.moveTo(e_[w].fs); int at=it.isValid()?who(it.get()):-1; bool member=false; for(int j=0;j<s.n;++j) member|=s.v[j]==w;
  if(member){ SX_ASSERT(at==w,"moveTo stands on the structure itself when it is in the index"); }
  else if(o!=BAG){ int first=-1; for(int j=s.n-1;j>=0;--j) if(o==SET?!(e_[s.v[j]].k<e_[w].k):!lt(o,s.v[j],w)) first=j; if(first>=0) SX_ASSERT(at==s.v[first],"moveTo stands on the first element that is not before the argument"); }
  if(at>=0){ int pos=-1; for(int j=0;j<s.n&&pos<0;++j) if(s.v[j]==at) pos=j; SX_ASSERT(pos>=0,"the cursor stands on a member"); int dir=sx_choose("dir",2); if(pos>=0&&!(twice&&at==0)){ if(dir) it.moveToNext(); else it.moveToPrevious(); int e=pos+(dir?1:-1); bool v=e>=0&&e<s.n; SX_ASSERT(it.isValid()==v,"next or previous after moveTo"); if(v&&it.isValid()) SX_ASSERT(it.get()==e_[s.v[e]].fs,"neighbour after moveTo"); } }
  symx_observe(at+1); symx_reached(LBL[o]); }
static int M(){ return symx_thorough()?4:3; }
SYMX_SCENARIO_SETUP(asc,setup){ go(ASC,false,M()); }
SYMX_SCENARIO_SETUP(desc,setup){ go(DESC,false,M()); }
SYMX_SCENARIO_SETUP(two,setup){ go(TWO,false,symx_thorough()?3:2); }
SYMX_SCENARIO_SETUP(asc_types,setup){ go(ASC,true,M()); }
SYMX_SCENARIO_SETUP(desc_types,setup){ go(DESC,true,2); }
SYMX_SCENARIO_SETUP(set,setup){ go(SET,false,M()); }
SYMX_SCENARIO_SETUP(bag,setup){ go(BAG,false,M()); }
SYMX_SCENARIO_SETUP(bag_types,setup){ go(BAG,true,M()); }
// grown indexes
static void large(int o,bool types){ int n=40; for(int i=0;i<n;++i){ mkFS(types?i*5%4:3,(i*7%n)/(o==SET?1:3)*10-30,o==TWO?i%3:0); add(i); } int w=sx_choose("arg",5); if(w==4){ w=n; mkFS(3,sx_i32("kq"),o==TWO?sx_choose("lq",4)-1:0); } else w*=11; FSIndex x=rep().getIndex(US(LBL[o]),hT(types?A_:D_)); Seq s=fwd(x.iterator()); FSIterator it=x.iterator(); if(sx_choose("last",2)) it.moveToLast(); rest(o,types,false,n,w,s,it); symx_reached("large"); }
SYMX_SCENARIO_SETUP(large_asc,setup){ large(ASC,false); }
SYMX_SCENARIO_SETUP(large_desc,setup){ large(DESC,true); }
SYMX_SCENARIO_SETUP(large_two,setup){ large(TWO,true); }
SYMX_SCENARIO_SETUP(large_set,setup){ large(SET,false); }
SYMX_SCENARIO_SETUP(large_bag,setup){ large(BAG,true); }
// the annotation index: begin, end reversed, type priority
static void anSetup(){ an::annSetup(); an::na_=0; }
SYMX_SCENARIO_SETUP(annotations,anSetup){ using namespace an; int n=2+sx_choose("n",2); for(int i=0;i<n;++i){ mkAn(i%2,n==3?(int)(int8_t)sx_u8(nm("b",i)):sx_i32(nm("b",i)),n==3?sx_choose(nm("w",i),2)*8:sx_i32(nm("e",i))); addAn(i); } int w=sx_choose("arg",n+1); if(w==n) mkAn(sx_choose("tq",2),n==3?(int)(int8_t)sx_u8("bq"):sx_i32("bq"),n==3?4:sx_i32("eq")); ANIndex x=an::c_->getAnnotationIndex(hT(uima::internal::gs_tyAnnotationType)); SeqA s=fwdA(x.iterator()); ANIterator it=x.iterator(); it.moveTo(a_[w].fs); int at=it.isValid()?whoAn(it.get()):-1; if(w<n){ SX_ASSERT(at==w,"moveTo stands on the annotation itself when it is in the index"); } else { int first=-1; for(int j=s.n-1;j>=0;--j) if(!befAn(s.v[j],w)) first=j; if(first>=0) SX_ASSERT(at==s.v[first],"moveTo stands on the first annotation that is not before the argument"); } if(at>=0){ int pos=-1; for(int j=0;j<s.n&&pos<0;++j) if(s.v[j]==at) pos=j; SX_ASSERT(pos>=0,"the cursor stands on a member"); it.moveToNext(); SX_ASSERT(it.isValid()==(pos+1<s.n)&&(pos+1>=s.n||whoAn(it.get())==s.v[pos+1]),"one step after moveTo"); } symx_reached("annotations"); }
