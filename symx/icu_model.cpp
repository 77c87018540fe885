// Layout-compatible re-implementation of the out-of-line icu::UnicodeString / u_* functions that the code under test
// applies to (possibly symbolic) text.  Compiled with the pass and linked into the symbolic executable only; the native
// replay uses the real ICU, and the comparison of observations between both validates this model on every run.
#include <unicode/unistr.h>
#include <unicode/ustring.h>
#include <unicode/uchar.h>
#include <unicode/ucnv.h>
#include <stdlib.h>
#include <string.h>
U_NAMESPACE_BEGIN
typedef char16_t C16;
static bool isSp(C16 c);
static C16* buf(UnicodeString* s){ return const_cast<C16*>(((const UnicodeString*)s)->getBuffer()); }
static int32_t clampStart(int32_t s,int32_t len){ if(s<0) return 0; if(s>len) return len; return s; }
static int32_t clampLen(int32_t s,int32_t n,int32_t len){ if(n<0) return 0; if(n>len-s) return len-s; return n; }

struct Acc { // raw view of the object layout
  void* vt; union { struct { int16_t fl; C16 sb[27]; } st; struct { int16_t fl; int32_t len; int32_t cap; C16* arr; } f; } u;
};
static_assert(sizeof(Acc)==sizeof(UnicodeString),"layout");
static Acc& A(const UnicodeString* s){ return *(Acc*)s; }
enum { BOGUS=1,STACK=2,REFC=4,RO=8,OPEN=16,ALL=0x1f,SHIFT=5,MAXSHORT=0x3ff,LARGE=(int)0xffe0 };
static void setLen(Acc& a,int32_t n){ if(n<=MAXSHORT) a.u.f.fl=(int16_t)((a.u.f.fl&ALL)|(n<<SHIFT)); else { a.u.f.fl|=(int16_t)LARGE; a.u.f.len=n; } }
static int32_t lenOf(const Acc& a){ return a.u.f.fl>=0 ? a.u.f.fl>>SHIFT : a.u.f.len; }
static const C16* arrOf(const Acc& a){ return a.u.f.fl&STACK ? a.u.st.sb : a.u.f.arr; }
static void rel(Acc& a){ if(a.u.f.fl&REFC){ int32_t* r=(int32_t*)a.u.f.arr-1; if(__atomic_sub_fetch(r,1,__ATOMIC_SEQ_CST)==0) free(r); } }
static C16* alloc_(Acc& a,int32_t cap){
  if(cap<=27){ a.u.f.fl=STACK; return a.u.st.sb; }
  ++cap; size_t nb=(sizeof(int32_t)+(size_t)cap*2+15)&~(size_t)15; int32_t* p=(int32_t*)malloc(nb); *p++=1;
  a.u.f.arr=(C16*)p; a.u.f.cap=(int32_t)((nb-4)/2); a.u.f.fl=REFC; return a.u.f.arr; }
static void setContent(Acc& a,const C16* p,int32_t n){ // a: released or fresh
  C16* d=alloc_(a,n); for(int32_t i=0;i<n;++i) d[i]=p[i]; setLen(a,n); }
// replaces [start,start+len) of a by p[0,n)
static void splice(Acc& a,int32_t start,int32_t len,const C16* p,int32_t n){
  int32_t old=lenOf(a),nn=old-len+n; const C16* o=arrOf(a);
  C16* t=(C16*)malloc(nn*2+2); 
  for(int32_t i=0;i<start;++i) t[i]=o[i];
  for(int32_t i=0;i<n;++i) t[start+i]=p[i];
  for(int32_t i=start+len;i<old;++i) t[i-len+n]=o[i];
  int32_t cap= a.u.f.fl&STACK?27:a.u.f.cap; bool own=(a.u.f.fl&STACK)||((a.u.f.fl&REFC)&&*((int32_t*)a.u.f.arr-1)==1)||((a.u.f.fl&(RO|REFC|STACK))==0);
  if(own&&nn<=cap){ C16* d=const_cast<C16*>(arrOf(a)); for(int32_t i=0;i<nn;++i) d[i]=t[i]; setLen(a,nn); }
  else { rel(a); int32_t g=nn>27? nn+(nn>>2)+128:nn; C16* d=alloc_(a,g); for(int32_t i=0;i<nn;++i) d[i]=t[i]; setLen(a,nn); }
  free(t); }
static bool writable(const Acc& a){ return !(a.u.f.fl&(OPEN|BOGUS)); }

UnicodeString::UnicodeString(const C16* t){ fUnion.fFields.fLengthAndFlags=kShortString; int32_t n=0; if(t) while(t[n]) ++n; setContent(A(this),t,n); }
UnicodeString::UnicodeString(const C16* t,int32_t n){ fUnion.fFields.fLengthAndFlags=kShortString; if(!t||n<-1) n=0; else if(n==-1){ n=0; while(t[n]) ++n; } setContent(A(this),t,n); }
UnicodeString::UnicodeString(C16 c){ fUnion.fFields.fLengthAndFlags=kLength1|kShortString; fUnion.fStackFields.fBuffer[0]=c; }
UnicodeString::UnicodeString(UBool nul,ConstChar16Ptr tp,int32_t n){
  fUnion.fFields.fLengthAndFlags=kReadonlyAlias; const C16* t=tp;
  if(!t){ fUnion.fFields.fLengthAndFlags=kShortString; return; }
  if(n<-1||(n==-1&&!nul)||(n>=0&&nul&&t[n]!=0)){ fUnion.fFields.fLengthAndFlags=kIsBogus; fUnion.fFields.fArray=nullptr; fUnion.fFields.fCapacity=0; return; }
  if(n==-1){ n=0; while(t[n]) ++n; }
  Acc& a=A(this); setLen(a,n); a.u.f.arr=const_cast<C16*>(t); a.u.f.cap=nul?n+1:n; }
static void copyInto(Acc& d,const Acc& s,bool fast){
  int fl=s.u.f.fl;
  if(fl&BOGUS){ rel(d); d.u.f.fl=BOGUS; d.u.f.arr=nullptr; d.u.f.cap=0; return; }
  rel(d);
  int32_t n=lenOf(s); if(n==0){ d.u.f.fl=STACK; return; }
  switch(fl&ALL){
  case STACK: d.u.f.fl=(int16_t)fl; for(int32_t i=0;i<n;++i) d.u.st.sb[i]=s.u.st.sb[i]; break;
  case REFC: __atomic_add_fetch((int32_t*)s.u.f.arr-1,1,__ATOMIC_SEQ_CST); d.u.f.fl=(int16_t)fl; d.u.f.len=s.u.f.len; d.u.f.cap=s.u.f.cap; d.u.f.arr=s.u.f.arr; break;
  case RO: if(fast){ d.u.f.fl=(int16_t)fl; d.u.f.len=s.u.f.len; d.u.f.cap=s.u.f.cap; d.u.f.arr=s.u.f.arr; break; } // fallthrough
  default: setContent(d,arrOf(s),n);
  } }
UnicodeString::UnicodeString(const UnicodeString& o):Replaceable(){ fUnion.fFields.fLengthAndFlags=kShortString; copyInto(A(this),A(&o),false); }
static void moveInto(Acc& d,Acc& s){ d.u=s.u; if(s.u.f.fl&STACK){ } else { s.u.f.fl=BOGUS; s.u.f.arr=nullptr; s.u.f.cap=0; } }
UnicodeString::UnicodeString(UnicodeString&& o) noexcept { fUnion.fFields.fLengthAndFlags=kShortString; moveInto(A(this),A(&o)); }
UnicodeString::~UnicodeString(){ rel(A(this)); }
UnicodeString& UnicodeString::operator=(const UnicodeString& o){ if(this!=&o) copyInto(A(this),A(&o),false); return *this; }
UnicodeString& UnicodeString::operator=(UnicodeString&& o) noexcept { if(this!=&o){ rel(A(this)); moveInto(A(this),A(&o)); } return *this; }
UnicodeString& UnicodeString::fastCopyFrom(const UnicodeString& o){ if(this!=&o) copyInto(A(this),A(&o),true); return *this; }
UnicodeString& UnicodeString::copyFrom(const UnicodeString& o,UBool fast){ if(this!=&o) copyInto(A(this),A(&o),fast); return *this; }
UnicodeString& UnicodeString::doReplace(int32_t s,int32_t n,const UnicodeString& t,int32_t ss,int32_t sn){ int32_t l=lenOf(A(&t)); ss=clampStart(ss,l); sn=clampLen(ss,sn,l); return doReplace(s,n,arrOf(A(&t)),ss,sn); }
UnicodeString& UnicodeString::doReplace(int32_t s,int32_t n,const C16* p,int32_t ps,int32_t pn){
  if(!writable(A(this))) return *this; int32_t l=lenOf(A(this)); s=clampStart(s,l); n=clampLen(s,n,l);
  if(!p) pn=0; else { p+=ps; if(pn<0){ pn=0; while(p[pn]) ++pn; } }
  splice(A(this),s,n,p,pn); return *this; }
UnicodeString& UnicodeString::doAppend(const UnicodeString& t,int32_t ss,int32_t sn){ if(sn==0) return *this; int32_t l=lenOf(A(&t)); ss=clampStart(ss,l); sn=clampLen(ss,sn,l); return doAppend(arrOf(A(&t)),ss,sn); }
UnicodeString& UnicodeString::doAppend(const C16* p,int32_t ps,int32_t pn){ if(!writable(A(this))||pn==0||!p) return *this; p+=ps; if(pn<0){ pn=0; while(p[pn]) ++pn; if(pn==0) return *this; } int32_t l=lenOf(A(this)); splice(A(this),l,0,p,pn); return *this; }
UnicodeString& UnicodeString::append(UChar32 c){ C16 b[2]; int32_t n=0; if((uint32_t)c<=0xffff) b[n++]=(C16)c; else if((uint32_t)c<=0x10ffff){ b[n++]=(C16)((c>>10)+0xd7c0); b[n++]=(C16)((c&0x3ff)|0xdc00); } return n? doAppend(b,0,n):*this; }
UBool UnicodeString::doEquals(const UnicodeString& t,int32_t n) const { const C16*a=arrOf(A(this)),*b=arrOf(A(&t)); for(int32_t i=0;i<n;++i) if(a[i]!=b[i]) return 0; return 1; }
int8_t UnicodeString::doCompare(int32_t s,int32_t n,const C16* p,int32_t ps,int32_t pn) const {
  if(isBogus()) return -1; int32_t l=lenOf(A(this)); s=clampStart(s,l); n=clampLen(s,n,l);
  if(!p) return n==0?0:1; const C16* a=arrOf(A(this))+s; p+=ps; if(pn<0){ pn=0; while(p[pn]) ++pn; }
  int32_t m=n<pn?n:pn; int8_t lr= n==pn?0: n<pn?-1:1;
  if(m>0&&a!=p) for(int32_t i=0;i<m;++i) if(a[i]!=p[i]) return (int8_t)((((int32_t)a[i]-(int32_t)p[i])>>15)|1);
  return lr; }
UBool UnicodeString::doEqualsSubstring(int32_t s,int32_t n,const C16* p,int32_t ps,int32_t pn) const {
  if(isBogus()) return 0; int32_t l=lenOf(A(this)); s=clampStart(s,l); n=clampLen(s,n,l);
  if(!p) return n==0; const C16* a=arrOf(A(this))+s; p+=ps; if(pn<0){ pn=0; while(p[pn]) ++pn; }
  if(n!=pn) return 0; if(n==0||a==p) return 1; for(int32_t i=0;i<n;++i) if(a[i]!=p[i]) return 0; return 1; }
void UnicodeString::doExtract(int32_t s,int32_t n,C16* d,int32_t ds) const { int32_t l=lenOf(A(this)); s=clampStart(s,l); n=clampLen(s,n,l); const C16* a=arrOf(A(this))+s; if(a!=d+ds) for(int32_t i=0;i<n;++i) d[ds+i]=a[i]; }
void UnicodeString::extractBetween(int32_t s,int32_t e,UnicodeString& t) const { int32_t l=lenOf(A(this)); s=clampStart(s,l); e=clampStart(e,l); t.replace(0,t.length(),*this,s,e-s); }
int32_t UnicodeString::extract(Char16Ptr dp,int32_t cap,UErrorCode& ec) const {
  int32_t n=lenOf(A(this)); C16* d=dp; if(U_SUCCESS(ec)){ if(isBogus()||cap<0||(cap>0&&!d)) ec=U_ILLEGAL_ARGUMENT_ERROR; else { const C16* a=arrOf(A(this)); if(n>0&&n<=cap&&a!=d) for(int32_t i=0;i<n;++i) d[i]=a[i];
    if(n<cap) d[n]=0; else if(n==cap) ec=U_STRING_NOT_TERMINATED_WARNING; else ec=U_BUFFER_OVERFLOW_ERROR; } } return n; }
int32_t UnicodeString::doIndexOf(C16 c,int32_t s,int32_t n) const { int32_t l=lenOf(A(this)); s=clampStart(s,l); n=clampLen(s,n,l); const C16* a=arrOf(A(this)); for(int32_t i=0;i<n;++i) if(a[s+i]==c){
    return s+i; } return -1; }
int32_t UnicodeString::doLastIndexOf(C16 c,int32_t s,int32_t n) const { if(isBogus()) return -1; int32_t l=lenOf(A(this)); s=clampStart(s,l); n=clampLen(s,n,l); const C16* a=arrOf(A(this)); for(int32_t i=n;i-->0;) if(a[s+i]==c) return s+i; return -1; }
static bool subOK(const C16* h,int32_t hl,int32_t at,const C16* p,int32_t pn){ // a match must not split surrogate pairs
  if((p[0]&0xfc00)==0xdc00&&at>0&&(h[at-1]&0xfc00)==0xd800) return false;
  if((p[pn-1]&0xfc00)==0xd800&&at+pn<hl&&(h[at+pn]&0xfc00)==0xdc00) return false; return true; }
int32_t UnicodeString::indexOf(const C16* p,int32_t ps,int32_t pn,int32_t s,int32_t n) const {
  if(isBogus()||!p||ps<0||pn==0) return -1; if(pn<0&&p[ps]==0) return -1; p+=ps; if(pn<0){ pn=0; while(p[pn]) ++pn; }
  int32_t l=lenOf(A(this)); s=clampStart(s,l); n=clampLen(s,n,l); const C16* a=arrOf(A(this))+s;
  for(int32_t i=0;i+pn<=n;++i){ int32_t j=0; while(j<pn&&a[i+j]==p[j]) ++j; if(j==pn&&subOK(a,n,i,p,pn)) return s+i; } return -1; }
int32_t UnicodeString::lastIndexOf(const C16* p,int32_t ps,int32_t pn,int32_t s,int32_t n) const {
  if(isBogus()||!p||ps<0||pn==0) return -1; if(pn<0&&p[ps]==0) return -1; p+=ps; if(pn<0){ pn=0; while(p[pn]) ++pn; }
  int32_t l=lenOf(A(this)); s=clampStart(s,l); n=clampLen(s,n,l); const C16* a=arrOf(A(this))+s;
  for(int32_t i=n-pn;i>=0;--i){ int32_t j=0; while(j<pn&&a[i+j]==p[j]) ++j; if(j==pn&&subOK(a,n,i,p,pn)) return s+i; } return -1; }
UnicodeString& UnicodeString::findAndReplace(int32_t s,int32_t n,const UnicodeString& o,int32_t os,int32_t on,const UnicodeString& w,int32_t ws,int32_t wn){
  if(isBogus()||o.isBogus()||w.isBogus()) return *this; int32_t l=lenOf(A(this)); s=clampStart(s,l); n=clampLen(s,n,l); int32_t ol=lenOf(A(&o)); os=clampStart(os,ol); on=clampLen(os,on,ol); if(on==0) return *this;
  while(n>0&&n>=on){ int32_t p=indexOf(o,os,on,s,n); if(p<0) break; replace(p,on,w,ws,wn); n-=p+on-s; s=p+wn; } return *this; }

UnicodeString& UnicodeString::trim(){
  if(isBogus()) return *this; int32_t l=lenOf(A(this)),i=l; const C16* a=arrOf(A(this));
  // supplementary code points are never white space, so code units suffice
  while(i>0&&isSp(a[i-1])) --i; if(i<l) splice(A(this),i,l-i,nullptr,0); l=i; a=arrOf(A(this)); int32_t st=0; while(st<l&&isSp(a[st])) ++st; if(st>0) splice(A(this),0,st,nullptr,0); return *this; }
int32_t UnicodeString::moveIndex32(int32_t index,int32_t delta) const { int32_t l=lenOf(A(this)); const C16* a=arrOf(A(this)); if(index<0) index=0; else if(index>l) index=l;
  while(delta>0&&index<l){ C16 c=a[index++]; if((c&0xfc00)==0xd800&&index<l&&(a[index]&0xfc00)==0xdc00) ++index; --delta; }
  while(delta<0&&index>0){ C16 c=a[--index]; if((c&0xfc00)==0xdc00&&index>0&&(a[index-1]&0xfc00)==0xd800) --index; ++delta; } return index; }
int32_t UnicodeString::countChar32(int32_t s,int32_t n) const { int32_t l=lenOf(A(this)); s=clampStart(s,l); n=clampLen(s,n,l); const C16* a=arrOf(A(this))+s; int32_t k=0; for(int32_t i=0;i<n;++k){ C16 c=a[i++]; if((c&0xfc00)==0xd800&&i<n&&(a[i]&0xfc00)==0xdc00) ++i; } return k; }
// conversions between char and UChar: invariant ("") and default code page (C locale: ASCII, anything else is replaced)
static void fromChars(Acc& a,const char* s,int32_t n,C16 bad){ C16* d=alloc_(a,n); for(int32_t i=0;i<n;++i){ unsigned c=(unsigned char)s[i]; unsigned hi=0u-(c>>7); d[i]=(C16)((c&~hi)|(bad&hi)); } setLen(a,n); }
static int32_t slen(const char* s){ int32_t n=0; while(s[n]) ++n; return n; }
UnicodeString::UnicodeString(const char* s){ fUnion.fFields.fLengthAndFlags=kShortString; if(s) fromChars(A(this),s,slen(s),0xfffd); }
UnicodeString::UnicodeString(const char* s,int32_t n){ fUnion.fFields.fLengthAndFlags=kShortString; if(s&&n>=-1) fromChars(A(this),s,n<0?slen(s):n,0xfffd); }
static bool isUtf8(const char* cp); static int32_t toU(int kind,const char* s,int32_t n,C16* t,int32_t cap);
static void fromCp(Acc& a,const char* s,int32_t n,const char* cp){ if(!isUtf8(cp)){ fromChars(a,s,n,0xfffd); return; } C16* t=(C16*)malloc((size_t)n*2+2); int32_t r=toU(1,s,n,t,n); setContent(a,t,r); free(t); }
UnicodeString::UnicodeString(const char* s,const char* cp){ fUnion.fFields.fLengthAndFlags=kShortString; if(s) fromCp(A(this),s,slen(s),cp); }
UnicodeString::UnicodeString(const char* s,int32_t n,const char* cp){ fUnion.fFields.fLengthAndFlags=kShortString; if(s&&n>=-1) fromCp(A(this),s,n<0?slen(s):n,cp); }
static void toInv(const C16* u,char* c,int32_t n){ static const uint32_t inv[4]={0xfffffbffu,0xffffffe5u,0x87fffffeu,0x87fffffeu}; for(int32_t i=0;i<n;++i){ uint32_t x=u[i],m=0; for(int k=0;k<4;++k) m|=(uint32_t)((x>>5)==(uint32_t)k)*((inv[k]>>(x&31))&1u); c[i]=(char)(x&(0u-m)); } }
// converters: kind 0 is US-ASCII (the default converter of the C locale), 1 is UTF-8
struct Conv { uint32_t magic; int kind; };
static bool ciEq(const char* a,const char* b){ for(;;){ while(*a=='-'||*a=='_'||*a==' ') ++a; while(*b=='-'||*b=='_'||*b==' ') ++b; char x=*a,y=*b; if(x>='A'&&x<='Z') x+=32; if(y>='A'&&y<='Z') y+=32; if(x!=y) return false; if(!x) return true; ++a; ++b; } }
static bool isUtf8(const char* cp){ return cp&&ciEq(cp,"utf8"); }
static bool knownCp(const char* cp){ return !cp||!*cp||isUtf8(cp)||ciEq(cp,"us-ascii")||ciEq(cp,"ascii")||ciEq(cp,"ansi_x3.4-1968"); }
static int kindOf(const char* cp){ return isUtf8(cp)?1:0; }
static void put(char* t,int32_t cap,int32_t& k,unsigned b){ if(t&&k<cap) t[k]=(char)b; ++k; }
static int32_t fromU(int kind,const C16* u,int32_t n,char* t,int32_t cap){ int32_t k=0; for(int32_t i=0;i<n;++i){ unsigned x=u[i]; bool pair=false; if(i+1<n){ unsigned y=u[i+1]; if((unsigned)((x&0xfc00)==0xd800)&(unsigned)((y&0xfc00)==0xdc00)) pair=true; }
    if(kind==0){ unsigned hi=0u-(unsigned)(x>127); put(t,cap,k,(x&~hi)|(0x1au&hi)); if(pair) ++i; }
    else if(pair){ unsigned c=(x<<10)+u[i+1]-0x35fdc00u; put(t,cap,k,0xf0|c>>18); put(t,cap,k,0x80|(c>>12&63)); put(t,cap,k,0x80|(c>>6&63)); put(t,cap,k,0x80|(c&63)); ++i; }
    else if(x<0x80) put(t,cap,k,x); else if(x<0x800){ put(t,cap,k,0xc0|x>>6); put(t,cap,k,0x80|(x&63)); }
    else { unsigned sg=0u-(unsigned)((x&0xf800)==0xd800); x=(x&~sg)|(0xfffdu&sg); put(t,cap,k,0xe0|x>>12); put(t,cap,k,0x80|(x>>6&63)); put(t,cap,k,0x80|(x&63)); } }
  return k; }
static void putU(C16* t,int32_t cap,int32_t& k,unsigned c){ if(c>0xffff){ if(t&&k<cap) t[k]=(C16)((c>>10)+0xd7c0); ++k; if(t&&k<cap) t[k]=(C16)((c&0x3ff)|0xdc00); ++k; } else { if(t&&k<cap) t[k]=(C16)c; ++k; } }
// malformed UTF-8: one U+FFFD per maximal subpart
static int32_t toU(int kind,const char* s,int32_t n,C16* t,int32_t cap){ int32_t k=0; for(int32_t i=0;i<n;){ unsigned c=(unsigned char)s[i++];
    if(kind==0){ unsigned hi=0u-(c>>7); putU(t,cap,k,(c&~hi)|(0xfffdu&hi)); continue; }
    if(c<0x80){ putU(t,cap,k,c); continue; } int need; unsigned lo=0x80,hi=0xbf,v; if(c<0xc2||c>0xf4){ putU(t,cap,k,0xfffd); continue; }
    if(c<0xe0){ need=1; v=c&31; } else if(c<0xf0){ need=2; v=c&15; if(c==0xe0) lo=0xa0; if(c==0xed) hi=0x9f; } else { need=3; v=c&7; if(c==0xf0) lo=0x90; if(c==0xf4) hi=0x8f; }
    bool bad=false; while(need>0){ if(i>=n){ bad=true; break; } unsigned d=(unsigned char)s[i]; if(d<lo||d>hi){ bad=true; break; } v=v<<6|(d&63); lo=0x80; hi=0xbf; ++i; --need; }
    putU(t,cap,k,bad?0xfffd:v); }
  return k; }
static void term(char* t,int32_t cap,int32_t r,UErrorCode& ec){ if(U_FAILURE(ec)) return; if(r<cap){ t[r]=0; if(ec==U_STRING_NOT_TERMINATED_WARNING) ec=U_ZERO_ERROR; } else ec= r==cap?U_STRING_NOT_TERMINATED_WARNING:U_BUFFER_OVERFLOW_ERROR; }
static void termU(C16* t,int32_t cap,int32_t r,UErrorCode& ec){ if(U_FAILURE(ec)) return; if(r<cap){ t[r]=0; if(ec==U_STRING_NOT_TERMINATED_WARNING) ec=U_ZERO_ERROR; } else ec= r==cap?U_STRING_NOT_TERMINATED_WARNING:U_BUFFER_OVERFLOW_ERROR; }
int32_t UnicodeString::extract(int32_t s,int32_t n,char* t,uint32_t cap,const char* cp) const {
  if(cap>0&&!t) return 0; int32_t l=lenOf(A(this)); s=clampStart(s,l); n=clampLen(s,n,l); int32_t c=cap<=0x7fffffffu?(int32_t)cap:0x7fffffff; int32_t m=n<c?n:c; const C16* u=arrOf(A(this))+s;
  if(cp&&!*cp){ toInv(u,t,m); if(n<c) t[n]=0; return n; }
  if(!knownCp(cp)) abort(); int32_t r=fromU(kindOf(cp),u,n,t,c); if(r<c) t[r]=0; return r; }
int32_t UnicodeString::extract(char* t,int32_t cap,UConverter* cnv,UErrorCode& ec) const {
  if(U_FAILURE(ec)) return 0; if(isBogus()||cap<0||(cap>0&&!t)){ ec=U_ILLEGAL_ARGUMENT_ERROR; return 0; } int32_t n=lenOf(A(this));
  if(n==0){ if(cap>0) t[0]=0; else ec=U_STRING_NOT_TERMINATED_WARNING; return 0; }
  int32_t r=fromU(cnv?((Conv*)cnv)->kind:0,arrOf(A(this)),n,t,cap); term(t,cap,r,ec); return r; }
// character classes: range tables computed from the real ICU when the program starts
struct Ranges { int n; int32_t lo[1200],hi[1200]; };
static void build(Ranges& r,UBool(*f)(UChar32)){ r.n=0; bool in=false; for(int32_t c=0;c<=0x10ffff;++c){ bool b=f(c); if(b&&!in){ if(r.n>=1199) break; r.lo[r.n]=c; in=true; } if(!b&&in){ r.hi[r.n++]=c-1; in=false; } } if(in) r.hi[r.n++]=0x10ffff; }
static Ranges rSpace,rDigit,rLower,rUpper,rWs; 
static bool lookup(const Ranges& r,int32_t c){ if(r.n<=80){ unsigned in=0; for(int i=0;i<r.n;++i) in|=(unsigned)((uint32_t)(c-r.lo[i])<=(uint32_t)(r.hi[i]-r.lo[i])); return in!=0; } int lo=0,hi=r.n-1; while(lo<=hi){ int m=(lo+hi)/2; if(c<r.lo[m]) hi=m-1; else if(c>r.hi[m]) lo=m+1; else return true; } return false; }
static bool isSp(C16 c){ return c==0x20||lookup(rWs,c); }
U_NAMESPACE_END
static bool inited=false;
static UBool ws(UChar32 c){ return u_isWhitespace(c)||c==0x20; }
struct ModelInit { ModelInit(){ icu::build(icu::rSpace,[](UChar32 c)->UBool{return u_isspace(c);}); icu::build(icu::rDigit,[](UChar32 c)->UBool{return u_isdigit(c);}); icu::build(icu::rLower,[](UChar32 c)->UBool{return u_islower(c);}); icu::build(icu::rUpper,[](UChar32 c)->UBool{return u_isupper(c);}); icu::build(icu::rWs,ws); inited=true; } };
static ModelInit modelInit __attribute__((init_priority(200)));
extern "C" {
// called in place of the ICU functions (see the replacement table of the pass)
UBool symxlib_u_isspace(UChar32 c){ return icu::lookup(icu::rSpace,c); }
UBool symxlib_u_isdigit(UChar32 c){ return icu::lookup(icu::rDigit,c); }
UBool symxlib_u_islower(UChar32 c){ return icu::lookup(icu::rLower,c); }
UBool symxlib_u_isupper(UChar32 c){ return icu::lookup(icu::rUpper,c); }
void symxlib_u_UCharsToChars(const char16_t* u,char* c,int32_t n){ icu::toInv(u,c,n); }
int32_t symxlib_u_strlen(const char16_t* s){ int32_t n=0; while(s[n]) ++n; return n; }
int32_t symxlib_u_strncmp(const char16_t* a,const char16_t* b,int32_t n){ for(int32_t i=0;i<n;++i){ if(a[i]!=b[i]) return (int32_t)a[i]-(int32_t)b[i]; if(!a[i]) return 0; } return 0; }
static int32_t fix(char16_t c){ return c>=0xe000? c-0x800 : c>=0xd800? c+0x2000 : c; }
static bool pairLead(const char16_t* s,int32_t i,int32_t n){ return (s[i]&0xfc00)==0xd800&&i+1<n&&(s[i+1]&0xfc00)==0xdc00; }
static bool pairTrail(const char16_t* s,int32_t i){ return (s[i]&0xfc00)==0xdc00&&i>0&&(s[i-1]&0xfc00)==0xd800; }
int32_t symxlib_u_strncmpCodePointOrder(const char16_t* a,const char16_t* b,int32_t n){ // as ICU: strncmp style, code point order
  for(int32_t i=0;i<n;++i){ char16_t x=a[i],y=b[i]; if(x!=y){
      int32_t c=x,d=y; if(c>=0xd800&&d>=0xd800){
        bool s1=((x&0xfc00)==0xd800&&i+1!=n&&(a[i+1]&0xfc00)==0xdc00)||pairTrail(a,i); bool s2=((y&0xfc00)==0xd800&&i+1!=n&&(b[i+1]&0xfc00)==0xdc00)||pairTrail(b,i);
        if(!s1) c-=0x2800; if(!s2) d-=0x2800; }
      return c-d; }
    if(!x) return 0; } return 0; }
// converters by handle; unknown code pages are refused (path ends as unsupported through abort)
UConverter* symxlib_ucnv_open(const char* cp,UErrorCode* e){ if(U_FAILURE(*e)) return nullptr; if(!icu::knownCp(cp)){ *e=U_FILE_ACCESS_ERROR; return nullptr; } icu::Conv* c=(icu::Conv*)malloc(sizeof(icu::Conv)); c->magic=0x636f6e76; c->kind=icu::kindOf(cp); return (UConverter*)c; }
void symxlib_ucnv_close(UConverter* c){ if(c) free(c); }
void symxlib_ucnv_reset(UConverter*){ }
int8_t symxlib_ucnv_getMaxCharSize(const UConverter* c){ return ((const icu::Conv*)c)->kind?3:1; }
int32_t symxlib_ucnv_fromUChars(UConverter* c,char* d,int32_t cap,const char16_t* s,int32_t n,UErrorCode* e){ if(U_FAILURE(*e)) return 0; if(!c||cap<0||(cap>0&&!d)||n<-1||(n!=0&&!s)){ *e=U_ILLEGAL_ARGUMENT_ERROR; return 0; } if(n<0){ n=0; while(s[n]) ++n; } int32_t r=n?icu::fromU(((icu::Conv*)c)->kind,s,n,d,cap):0; icu::term(d,cap,r,*e); return r; }
int32_t symxlib_ucnv_toUChars(UConverter* c,char16_t* d,int32_t cap,const char* s,int32_t n,UErrorCode* e){ if(U_FAILURE(*e)) return 0; if(!c||cap<0||(cap>0&&!d)||n<-1||(n!=0&&!s)){ *e=U_ILLEGAL_ARGUMENT_ERROR; return 0; } if(n<0){ n=0; while(s[n]) ++n; } int32_t r=n?icu::toU(((icu::Conv*)c)->kind,s,n,d,cap):0; icu::termU(d,cap,r,*e); return r; }
char* symxlib_u_strToUTF8(char* d,int32_t cap,int32_t* len,const char16_t* s,int32_t n,UErrorCode* e){ if(U_FAILURE(*e)) return nullptr; if((!s&&n!=0)||n<-1||cap<0||(!d&&cap>0)){ *e=U_ILLEGAL_ARGUMENT_ERROR; return nullptr; } if(n<0){ n=0; while(s[n]) ++n; } for(int32_t i=0;i<n;++i){ unsigned x=s[i]; if((x&0xf800)==0xd800){ if(!(x&0x400)&&i+1<n&&(s[i+1]&0xfc00)==0xdc00) ++i; else { *e=U_INVALID_CHAR_FOUND; return nullptr; } } } int32_t r=icu::fromU(1,s,n,d,cap); if(len) *len=r; icu::term(d,cap,r,*e); return d; }
char* symxlib_u_strToUTF8WithSub(char* d,int32_t cap,int32_t* len,const char16_t* s,int32_t n,UChar32 sub,int32_t* nsub,UErrorCode* e){ if(U_FAILURE(*e)) return nullptr; if(sub!=0xfffd) abort(); if((!s&&n!=0)||n<-1||cap<0||(!d&&cap>0)){ *e=U_ILLEGAL_ARGUMENT_ERROR; return nullptr; } if(n<0){ n=0; while(s[n]) ++n; }
  if(nsub){ int32_t k=0; for(int32_t i=0;i<n;++i) if((s[i]&0xf800)==0xd800){ if(pairLead(s,i,n)) ++i; else ++k; } *nsub=k; } int32_t r=icu::fromU(1,s,n,d,cap); if(len) *len=r; icu::term(d,cap,r,*e); return d; }
int32_t symxlib_u_memcmp(const char16_t* a,const char16_t* b,int32_t n){ for(int32_t i=0;i<n;++i) if(a[i]!=b[i]) return (int32_t)a[i]-(int32_t)b[i]; return 0; }
int32_t symxlib_u_strCompare(const char16_t* a,int32_t n,const char16_t* b,int32_t m,UBool cp){ if(!a||n<-1||!b||m<-1) return 0; if(n<0){ n=0; while(a[n]) ++n; } if(m<0){ m=0; while(b[m]) ++m; } int32_t k=n<m?n:m;
  for(int32_t i=0;i<k;++i) if(a[i]!=b[i]){ int32_t c=a[i],d=b[i]; if(cp&&c>=0xd800&&d>=0xd800){ bool s1=pairLead(a,i,n)||pairTrail(a,i),s2=pairLead(b,i,m)||pairTrail(b,i); if(!s1) c-=0x2800; if(!s2) d-=0x2800; } return c-d; }
  return n-m; }
}
