// L01: language identifiers.
// BOUND: parsing: every byte string of length 0..7 without NUL (all bytes symbolic) through the const char*, std::string and Unicode constructors; Unicode constructor also over all UTF-16 units, length 0..6
// BOUND: matching/equality/ordering: every pair (triple for ordering) of languages built from unspecified, ll or ll-cc with symbolic letters, either case and separator
// BOUND: numbers: every number of a well-formed language
// OUTSIDE: texts longer than 7 units (same length test applies), embedded NUL bytes, numbers that denote no language
#include "symx.h"
#include <uima/api.hpp>
#include <uima/language.hpp>
#include <string>
using namespace uima;
static bool letter(unsigned c){ return ((c|32u)-(unsigned)'a')<26u; }
static unsigned low(unsigned c){ return c|32u; }
// code: the well-formed prefix condition and the expected fields
static void checkParsed(const Language& l,int n,const unsigned* c,bool wellFormed){
  if(n==0){ SX_ASSERT(!l.hasLanguage(),"empty text is unspecified"); SX_ASSERT(!l.hasTerritory(),"empty text has no territory"); SX_ASSERT(l.asString()=="","empty text prints empty"); SX_ASSERT(l.asNumber()==0,"unspecified is number 0"); return; }
  SX_ASSERT(l.isValid()==wellFormed,"valid exactly when well formed");
  if(wellFormed){ symx_reached("wellformed");
    std::string s=l.asString(); SX_ASSERT((int)s.size()==n,"text length");
    if((int)s.size()==n) for(int i=0;i<n;++i) SX_ASSERT((unsigned)(unsigned char)s[i]==(i==2?(unsigned)'-':low(c[i])),"text is the normalised code");
    uint32_t num=low(c[0])<<24|low(c[1])<<16; if(n==5) num|=low(c[3])<<8|low(c[4]);
    SX_ASSERT((uint32_t)l.asNumber()==num,"number");
    const char* lc=l.getLanguageCode(); SX_ASSERT((unsigned char)lc[0]==low(c[0]),"language code 0"); SX_ASSERT((unsigned char)lc[1]==low(c[1]),"language code 1"); SX_ASSERT(lc[2]==0,"language code end");
    const char* tc=l.getTerritoryCode(); SX_ASSERT(l.hasTerritory()==(n==5),"has territory"); SX_ASSERT(l.hasLanguage(),"has language");
    if(n==5){ SX_ASSERT((unsigned char)tc[0]==low(c[3]),"territory code 0"); SX_ASSERT((unsigned char)tc[1]==low(c[4]),"territory code 1"); SX_ASSERT(tc[2]==0,"territory code end"); } else SX_ASSERT(tc[0]==0,"no territory code");
    SX_ASSERT((uint32_t)l.getLanguage()==(num&0xffff0000u),"language number"); SX_ASSERT((uint32_t)l.getTerritory()==(num&0xffffu),"territory number");
    Language r(l.asNumber()); SX_ASSERT(r==l,"round trip by number"); SX_ASSERT(!(r!=l),"!= agrees with =="); SX_ASSERT(r.matches(l),"matches itself"); SX_ASSERT(!(r<l),"not less than itself");
    Language t(l.asString()); SX_ASSERT(t==l,"round trip by text"); Language u(l.asUnicodeString()); SX_ASSERT(u==l,"round trip by Unicode text");
    SX_ASSERT(r.hasTerritory()==(n==5),"number keeps territory");
  } else { symx_reached("illformed");
    Language inv(Language::INVALID); SX_ASSERT(l==inv,"ill-formed text is the invalid language"); SX_ASSERT(!l.hasTerritory(),"invalid has no territory");
    SX_ASSERT(l.getTerritoryCode()[0]==0,"invalid language has no territory code"); SX_ASSERT(l.asNumber()==inv.asNumber(),"one number for the invalid language"); Language r(l.asNumber()); SX_ASSERT(r==inv,"invalid round trips by number"); }
}
static bool wf(int n,const unsigned* c){ if(n==2) return letter(c[0])&letter(c[1]); if(n==5) return letter(c[0])&letter(c[1])&((c[2]=='-')|(c[2]=='_'))&letter(c[3])&letter(c[4]); return false; }
SYMX_SCENARIO(parse_bytes){
  int n=sx_choose("n",8); char b[8]; unsigned c[8]; static const char* nm[]={"c0","c1","c2","c3","c4","c5","c6"};
  for(int i=0;i<n;++i){ c[i]=sx_u8(nm[i]); symx_assume(c[i]!=0); b[i]=(char)c[i]; } b[n]=0;
  bool w=wf(n,c); Language l(b); checkParsed(l,n,c,w);
  std::string s(b,n); Language l2(s); SX_ASSERT(l2==l,"std::string constructor agrees"); Language l3; l3.setValue(s); SX_ASSERT(l3==l,"setValue agrees");
  symx_observe(l.isValid()); symx_observe(l.hasTerritory());
}
SYMX_SCENARIO(parse_unicode){
  int n=sx_choose("n",7); char16_t b[8]; unsigned c[8]; static const char* nm[]={"c0","c1","c2","c3","c4","c5","c6"};
  for(int i=0;i<n;++i){ c[i]=sx_u16(nm[i]); symx_assume(c[i]!=0); b[i]=(char16_t)c[i]; } b[n]=0;
  bool w=wf(n,c); icu::UnicodeString us(b,n); Language l(us); checkParsed(l,n,c,w);
  UnicodeStringRef r(b,n); Language l2(r); SX_ASSERT(l2==l,"UnicodeStringRef constructor agrees");
  symx_observe(l.isValid());
}
struct Sym { int kind; unsigned c[4]; Language l; };
static Sym mk(const char* const* nm){ Sym s; s.kind=sx_choose(nm[0],3); char b[6]; 
  for(int i=0;i<4;++i) s.c[i]=0;
  for(int i=0;i<s.kind*2;++i){ unsigned x=sx_u8(nm[1+i]); symx_assume(letter(x)); b[i<2?i:i+1]=(char)x; s.c[i]=low(x); }
  b[2]= s.kind==2?(sx_bool(nm[5])?'_':'-'):0; b[s.kind==0?0:s.kind==1?2:5]=0; s.l=Language(b); return s; }
static const char* N[3][6]={{"ak","a0","a1","a2","a3","as"},{"bk","b0","b1","b2","b3","bs"},{"ck","c0","c1","c2","c3","cs"}};
SYMX_SCENARIO(match){
  Sym a=mk(N[0]),b=mk(N[1]);
  bool eq=(a.kind==b.kind)&(a.c[0]==b.c[0])&(a.c[1]==b.c[1])&(a.c[2]==b.c[2])&(a.c[3]==b.c[3]);
  bool lang=(a.c[0]==b.c[0])&(a.c[1]==b.c[1]);
  bool m=eq|(a.kind==0)|(b.kind==0)|(lang&((a.kind==1)|(b.kind==1)));
  SX_ASSERT((a.l==b.l)==eq,"equality"); SX_ASSERT((a.l!=b.l)==!eq,"inequality"); SX_ASSERT(a.l.matches(b.l)==m,"matches"); SX_ASSERT(b.l.matches(a.l)==m,"matches is symmetric");
  SX_ASSERT((a.l.asNumber()==b.l.asNumber())==eq,"numbers identify languages");
  bool lt=a.l<b.l,gt=b.l<a.l; SX_ASSERT((lt+gt+eq)==1,"ordering is total"); if(m&&!eq) symx_reached("less specific match"); symx_observe(lt);
}
SYMX_SCENARIO(order){
  Sym a=mk(N[0]),b=mk(N[1]),c=mk(N[2]);
  if((a.l<b.l)&&(b.l<c.l)){ symx_reached("chain"); SX_ASSERT(a.l<c.l,"ordering is transitive"); }
}
