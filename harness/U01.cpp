// U01: string views.
// BOUND: views of 0..4 (thorough: 0..5) code units, all 2^16 values each, lying inside a larger buffer whose neighbouring code units are symbolic as well (a result that depends on anything outside the view is refuted); second operands of 0..4 (thorough: 0..5) code units inside a larger buffer; start offsets and lengths from -1 to one past the end; UTF-8 extraction of 0..3 arbitrary code units and around the 256-byte internal buffer (249..257 concrete characters followed by 2 arbitrary code units); splitting and trimming of 0..4 (thorough: 0..5) arbitrary code units with two delimiter sets
// BOUND: concrete views of ten lengths from 7 to 1000 units (surrogate pairs and ideographs among them) with one arbitrary unit at the start, in the middle or at the end (two views differing there for comparison, order, prefix and suffix; patterns of 1 to 33 units around it for searches; runs of space for trimming; many pieces for splitting)
// OUTSIDE: longer views with more than one arbitrary unit; operations on a view without buffer (NULL) other than ==, length and isEmpty; caseCompare (ICU case-folding tables), conversions to code pages other than UTF-8
#include "cascommon.hpp"
#include <uima/unistrref.hpp>
static const int PRE=2,POST=2; 
struct V { char16_t b[PRE+5+POST]; int n; const char16_t* p() const { return b+PRE; } UnicodeStringRef ref() const { return UnicodeStringRef((UChar const*)(b+PRE),n); } };
static void mk(V& v,const char* nme,int lo,int hi){ memset(&v,0,sizeof v); v.n=lo+sx_choose(nm(nme,0,"n"),hi-lo+1); for(int i=0;i<PRE+v.n+POST;++i) v.b[i]=sx_u16(nm(nme,i,"c")); }
static int clampi(int x,int lo,int hi){ return x<lo?lo:x>hi?hi:x; }
static int sel(int r,int d){ unsigned z=0u-(unsigned)(r==0); return (int)((unsigned)r|((unsigned)d&z)); } // r, or d when r is 0
static int lens(int n,int m){ return n<m?-1:n>m?1:0; }
static int cmpO(const char16_t* a,int n,const char16_t* b,int m){ int r=0; for(int i=0;i<n&&i<m;++i) r=sel(r,(int)(a[i]>b[i])-(int)(a[i]<b[i])); return sel(r,lens(n,m)); }
static unsigned wt(const char16_t* a,int i,int n){ unsigned lead=(a[i]&0xfc00)==0xd800, trail=(a[i]&0xfc00)==0xdc00, nt= i+1<n&&((a[i+1]&0xfc00)==0xdc00), pl= i>0&&((a[i-1]&0xfc00)==0xd800); unsigned paired=(lead&nt)|(trail&pl); return (unsigned)a[i]+(paired<<16); }
static int cpo(const char16_t* a,int n,const char16_t* b,int m){ int r=0; for(int i=0;i<n&&i<m;++i){ unsigned x=wt(a,i,n),y=wt(b,i,m); r=sel(r,(int)(x>y)-(int)(x<y)); } return sel(r,lens(n,m)); }
static int MX(){ return symx_thorough()?5:4; }
static const UChar* U(const char16_t* p){ return (const UChar*)p; }
SYMX_SCENARIO(compare){ V s,t; mk(s,"s",0,MX()); mk(t,"t",0,MX()); UnicodeStringRef a=s.ref(),b=t.ref(); int o=cmpO(s.p(),s.n,t.p(),t.n);
  SX_ASSERT(((a==b)!=0)==(o==0),"=="); SX_ASSERT(((a!=b)!=0)==(o!=0),"!=");
  SX_ASSERT((a<b)==(o<0),"<"); SX_ASSERT((a<=b)==(o<=0),"<="); SX_ASSERT((a>b)==(o>0),">"); SX_ASSERT((a>=b)==(o>=0),">=");
  SX_ASSERT(a.compare(b)==o,"compare"); SX_ASSERT(a.compare(U(t.p()),t.n)==o,"compare pointer"); icu::UnicodeString us(U(t.p()),t.n); SX_ASSERT(a.compare(us)==o,"compare UnicodeString"); UnicodeStringRef c(us); SX_ASSERT((a==c)==(o==0),"== of a view of a UnicodeString");
  UnicodeStringRef d(U(s.p()),U(s.p()+s.n)); SX_ASSERT(d.length()==s.n&&a==d,"begin/end"); UnicodeStringRef e; e=a; UnicodeStringRef f; f.setTo(a); UnicodeStringRef g; g.setTo(U(s.p()),s.n); SX_ASSERT(e==a&&f==a&&g==a,"copies"); SX_ASSERT(a.isEmpty()==(s.n==0)&&a.getSizeInBytes()==2*s.n,"size");
  symx_observe((uint64_t)(a==b)); symx_reached(s.n==0?"empty":"compared"); }
SYMX_SCENARIO(nul_terminated){ V s; mk(s,"s",0,4); char16_t* z=new char16_t[s.n+1]; int k=-1; for(int i=0;i<s.n;++i){ z[i]=s.p()[i]; if(k<0&&z[i]==0) k=i; } z[s.n]=0; if(k<0) k=s.n; UnicodeStringRef a((UChar const*)z); SX_ASSERT(a.length()==k&&a.getBuffer()==(UChar const*)z,"length of a terminated string"); UnicodeStringRef n((UChar const*)0); SX_ASSERT(n.length()==0&&n.isEmpty()&&n.getBuffer()==0&&n==UnicodeStringRef(),"null"); delete[] z; symx_reached("terminated"); }
SYMX_SCENARIO(code_point_order){ V s,t; mk(s,"s",0,3); mk(t,"t",0,3); UnicodeStringRef a=s.ref(),b=t.ref(); int o=cpo(s.p(),s.n,t.p(),t.n); int got=a.compareCodePointOrder(b); SX_ASSERT(got==o,"code point order"); SX_ASSERT(a.compareCodePointOrder(U(t.p()),t.n)==o,"code point order of a pointer"); symx_observe(got); symx_reached("ordered"); }
SYMX_SCENARIO(compare_range){ V s,t; mk(s,"s",0,MX()); mk(t,"t",0,2); UnicodeStringRef a=s.ref(),b=t.ref(); int st=sx_choose("st",s.n+3)-1,ln=sx_choose("ln",s.n+3)-1; int S=clampi(st,0,s.n),L=clampi(ln,0,s.n-S); int ts=sx_choose("ts",t.n+1),tl=sx_choose("tl",t.n-ts+1);
  int o=cmpO(s.p()+S,L,t.p()+ts,tl); SX_ASSERT(a.compare(st,ln,b,ts,tl)==o,"compare ranges"); SX_ASSERT(a.compare(st,ln,U(t.p()),ts,tl)==o,"compare a range with a pointer range"); SX_ASSERT(a.compareBetween(st,st+ln,b,ts,ts+tl)==o,"compareBetween");
  if(ts==0&&tl==t.n) SX_ASSERT(a.compare(st,ln,b)==o,"compare a range"); if(ts==0&&tl==ln) SX_ASSERT(a.compare(st,ln,U(t.p()))==o,"compare a range with a pointer");
  int c=cpo(s.p()+S,L,t.p()+ts,tl); SX_ASSERT(a.compareCodePointOrder(st,ln,b,ts,tl)==c,"code point order of ranges"); SX_ASSERT(a.compareCodePointOrderBetween(st,st+ln,b,ts,ts+tl)==c,"code point order between"); symx_reached("ranges"); }
static unsigned eqAt(const char16_t* a,const char16_t* b,int m){ unsigned d=0; for(int i=0;i<m;++i) d|=(unsigned)(a[i]^b[i]); return d==0; }
SYMX_SCENARIO(prefix_suffix){ V s,t; mk(s,"s",0,MX()); mk(t,"t",0,MX()); UnicodeStringRef a=s.ref(),b=t.ref(); int ts=sx_choose("ts",t.n+1),tl=sx_choose("tl",t.n-ts+1);
  bool pre= tl<=s.n&&eqAt(s.p(),t.p()+ts,tl), suf= tl<=s.n&&eqAt(s.p()+s.n-tl,t.p()+ts,tl);
  SX_ASSERT(a.startsWith(b,ts,tl)==pre,"startsWith a range"); SX_ASSERT(a.startsWith(U(t.p()),ts,tl)==pre,"startsWith a pointer range"); SX_ASSERT(a.endsWith(b,ts,tl)==suf,"endsWith a range"); SX_ASSERT(a.endsWith(U(t.p()),ts,tl)==suf,"endsWith a pointer range");
  if(ts==0&&tl==t.n){ SX_ASSERT(a.startsWith(b)==pre,"startsWith"); SX_ASSERT(a.startsWith(U(t.p()),tl)==pre,"startsWith pointer"); SX_ASSERT(a.endsWith(b)==suf,"endsWith"); SX_ASSERT(a.endsWith(U(t.p()),tl)==suf,"endsWith pointer"); }
  if(pre) symx_reached("prefix"); if(tl>s.n) symx_reached("longer than the view"); }
static int findO(const char16_t* a,int S,int L,const char16_t* b,int m,bool last){ int r=-1; for(int i=S;i+m<=S+L;++i) if(eqAt(a+i,b,m)){ r=i; if(!last) break; } return r; }
SYMX_SCENARIO(search){ V s,t; mk(s,"s",0,MX()); mk(t,"t",1,2); UnicodeStringRef a=s.ref(),b=t.ref(); int st=sx_choose("st",s.n+3)-1,ln=sx_choose("ln",s.n+3)-1; int S=clampi(st,0,s.n),L=clampi(ln,0,s.n-S),R=s.n-S;
  SX_ASSERT(a.indexOf(b,0,t.n,st,ln)==findO(s.p(),S,L,t.p(),t.n,false),"indexOf in a range"); SX_ASSERT(a.lastIndexOf(b,0,t.n,st,ln)==findO(s.p(),S,L,t.p(),t.n,true),"lastIndexOf in a range"); SX_ASSERT(a.indexOf(U(t.p()),t.n,st,ln)==findO(s.p(),S,L,t.p(),t.n,false),"indexOf pointer in a range"); SX_ASSERT(a.lastIndexOf(U(t.p()),t.n,st,ln)==findO(s.p(),S,L,t.p(),t.n,true),"lastIndexOf pointer in a range");
  SX_ASSERT(a.indexOf(b,st,ln)==findO(s.p(),S,L,t.p(),t.n,false),"indexOf"); if(t.n==2) SX_ASSERT(a.indexOf(b,1,1,st,ln)==findO(s.p(),S,L,t.p()+1,1,false)&&a.lastIndexOf(b,1,1,st,ln)==findO(s.p(),S,L,t.p()+1,1,true),"part of the pattern");
  if(ln==s.n-st){ SX_ASSERT(a.indexOf(b,st)==findO(s.p(),S,R,t.p(),t.n,false),"indexOf from"); SX_ASSERT(a.lastIndexOf(b,st)==findO(s.p(),S,R,t.p(),t.n,true),"lastIndexOf from"); SX_ASSERT(a.indexOf(U(t.p()),t.n,st)==findO(s.p(),S,R,t.p(),t.n,false),"indexOf pointer from"); SX_ASSERT(a.lastIndexOf(U(t.p()),t.n,st)==findO(s.p(),S,R,t.p(),t.n,true),"lastIndexOf pointer from"); }
  if(st==0&&ln==s.n){ SX_ASSERT(a.indexOf(b)==findO(s.p(),0,s.n,t.p(),t.n,false),"indexOf whole"); SX_ASSERT(a.lastIndexOf(b)==findO(s.p(),0,s.n,t.p(),t.n,true),"lastIndexOf whole"); }
  symx_reached("searched"); }
SYMX_SCENARIO(search_unit){ V s; mk(s,"s",0,MX()); char16_t c=sx_u16("x"); UnicodeStringRef a=s.ref(); int st=sx_choose("st",s.n+3)-1,ln=sx_choose("ln",s.n+3)-1; int S=clampi(st,0,s.n),L=clampi(ln,0,s.n-S);
  int f=findO(s.p(),S,L,&c,1,false),l=findO(s.p(),S,L,&c,1,true); SX_ASSERT(a.indexOf((UChar)c,st,ln)==f&&a.indexOf((UChar32)c,st,ln)==f,"indexOf unit"); SX_ASSERT(a.lastIndexOf((UChar)c,st,ln)==l&&a.lastIndexOf((UChar32)c,st,ln)==l,"lastIndexOf unit");
  if(ln==s.n-st) SX_ASSERT(a.indexOf((UChar)c,st)==f&&a.lastIndexOf((UChar)c,st)==l&&a.indexOf((UChar32)c,st)==f&&a.lastIndexOf((UChar32)c,st)==l,"from"); if(st==0&&ln==s.n) SX_ASSERT(a.indexOf((UChar)c)==f&&a.lastIndexOf((UChar)c)==l&&a.indexOf((UChar32)c)==f&&a.lastIndexOf((UChar32)c)==l,"whole"); symx_reached("unit"); }
SYMX_SCENARIO(search_code_point){ V s; mk(s,"s",0,MX()); UnicodeStringRef a=s.ref(); UChar32 c=(UChar32)sx_u32("x"); symx_assume((unsigned)(c>=0x10000)&(unsigned)(c<=0x10ffff)); char16_t p[2]={ (char16_t)((c>>10)+0xd7c0),(char16_t)((c&0x3ff)|0xdc00) };
  int f=findO(s.p(),0,s.n,p,2,false),l=findO(s.p(),0,s.n,p,2,true); SX_ASSERT(a.indexOf(c)==f,"indexOf code point"); SX_ASSERT(a.lastIndexOf(c)==l,"lastIndexOf code point"); SX_ASSERT(a.indexOf(c,1)==findO(s.p(),clampi(1,0,s.n),clampi(s.n-1,0,s.n),p,2,false),"indexOf code point from 1"); SX_ASSERT(a.indexOf(c,0,s.n)==f&&a.lastIndexOf(c,0,s.n)==l,"in a range"); if(f>=0) symx_reached("found"); }
static bool isLead(char16_t c){ return (c&0xfc00)==0xd800; } static bool isTrail(char16_t c){ return (c&0xfc00)==0xdc00; }
SYMX_SCENARIO(access){ V s; mk(s,"s",1,MX()); UnicodeStringRef a=s.ref(); int i=sx_choose("i",s.n+2)-1; const char16_t* p=s.p(); bool in=i>=0&&i<s.n; if(in) SX_ASSERT(a[i]==p[i],"[]"); SX_ASSERT(a.charAt(i)==(in?p[i]:0xffff),"charAt");
  bool lp= in&&isLead(p[i])&&i+1<s.n&&isTrail(p[i+1]), tp= in&&isTrail(p[i])&&i>0&&isLead(p[i-1]); UChar32 e= !in?0xffff: lp?(((p[i]&0x3ff)<<10)+(p[i+1]&0x3ff)+0x10000): tp?(((p[i-1]&0x3ff)<<10)+(p[i]&0x3ff)+0x10000):p[i];
  SX_ASSERT(a.char32At(i)==e,"char32At"); SX_ASSERT(a.getChar32Start(i)==(!in?0:tp?i-1:i),"getChar32Start"); bool tp2=i>0&&i<s.n&&isTrail(p[i])&&isLead(p[i-1]); SX_ASSERT(a.getChar32Limit(i)==(!in?s.n:tp2?i+1:i),"getChar32Limit");
  if(lp|tp) symx_reached("pair"); }
SYMX_SCENARIO(move_index){ V s; mk(s,"s",1,MX()); UnicodeStringRef a=s.ref(); const char16_t* p=s.p(); int i=sx_choose("i",s.n+1),d=sx_choose("d",5)-2; int k=i,D=d; while(D>0&&k<s.n){ bool pr=k+1<s.n&&isLead(p[k])&&isTrail(p[k+1]); k+=pr?2:1; --D; } while(D<0&&k>0){ bool pr=k>1&&isTrail(p[k-1])&&isLead(p[k-2]); k-=pr?2:1; ++D; } SX_ASSERT(a.moveIndex32(i,d)==k,"moveIndex32"); symx_reached("moved"); }
SYMX_SCENARIO(extract){ V s; mk(s,"s",0,MX()); UnicodeStringRef a=s.ref(); int st=sx_choose("st",s.n+3)-1,ln=sx_choose("ln",s.n+3)-1; int S=clampi(st,0,s.n),L=clampi(ln,0,s.n-S); char16_t* d=new char16_t[9]; for(int i=0;i<9;++i) d[i]=0x2603;
  a.extract(st,ln,(UChar*)d,1); unsigned bad=0; for(int i=0;i<9;++i) bad|=(unsigned)(d[i]^(i>=1&&i<=L?s.p()[S+i-1]:0x2603)); SX_ASSERT(bad==0,"extract to units");
  icu::UnicodeString u(U(u"zz"),2); a.extract(st,ln,u); SX_ASSERT(u.length()==L&&eqAt((const char16_t*)u.getBuffer(),s.p()+S,L),"extract to a UnicodeString"); icu::UnicodeString w; a.extractBetween(st,st+ln,w); SX_ASSERT(w==u,"extractBetween");
  for(int i=0;i<9;++i) d[i]=0x2603; a.extractBetween(st,st+ln,(UChar*)d,0); bad=0; for(int i=0;i<9;++i) bad|=(unsigned)(d[i]^(i<L?s.p()[S+i]:0x2603)); SX_ASSERT(bad==0,"extractBetween to units");
  if(ln==0){ int cap=sx_choose("cap",5); for(int i=0;i<9;++i) d[i]=0x2603; UErrorCode ec=U_ZERO_ERROR; int r=a.extract((UChar*)d,cap,ec); SX_ASSERT(r==s.n,"length needed"); SX_ASSERT(ec==(s.n<cap?U_ZERO_ERROR:s.n==cap?U_STRING_NOT_TERMINATED_WARNING:U_BUFFER_OVERFLOW_ERROR),"error code"); if(s.n<=cap){ bad=0; for(int i=0;i<9;++i) bad|=(unsigned)(d[i]^(i<s.n?s.p()[i]:i==s.n&&s.n<cap?0:0x2603)); SX_ASSERT(bad==0,"content"); } }
  std::string str("zz"); a.extract(st,ln,str,"utf-8"); if(L==0) SX_ASSERT(str.empty(),"empty range"); delete[] d; symx_reached("extracted"); }
// UTF-8: expected bytes computed here; an unpaired surrogate becomes U+FFFD
static int utf8(const char16_t* p,int n,unsigned char* o){ int k=0; for(int i=0;i<n;++i){ unsigned c=p[i]; if(isLead(p[i])&&i+1<n&&isTrail(p[i+1])){ c=0x10000+((c&0x3ff)<<10)+(p[i+1]&0x3ff); ++i; } else if((c&0xf800)==0xd800) c=0xfffd;
    if(c<0x80) o[k++]=c; else if(c<0x800){ o[k++]=0xc0|(c>>6); o[k++]=0x80|(c&63); } else if(c<0x10000){ o[k++]=0xe0|(c>>12); o[k++]=0x80|((c>>6)&63); o[k++]=0x80|(c&63); } else { o[k++]=0xf0|(c>>18); o[k++]=0x80|((c>>12)&63); o[k++]=0x80|((c>>6)&63); o[k++]=0x80|(c&63); } } return k; }
static bool same(std::string const& s,const unsigned char* o,int k){ if((int)s.length()!=k) return false; unsigned d=0; for(int i=0;i<k;++i) d|=(unsigned)((unsigned char)s.data()[i]^o[i]); return d==0; }
static void utf8Check(UnicodeStringRef a,const char16_t* p,int n){ static unsigned char* o=new unsigned char[1200]; int k=utf8(p,n,o); std::string t("zz"); int r=a.extractUTF8(t); SX_ASSERT(r==k&&same(t,o,k),"extractUTF8"); SX_ASSERT(same(a.asUTF8(),o,k),"asUTF8"); std::string u("zz"); r=a.extract(u,"utf-8"); SX_ASSERT(r==k&&same(u,o,k),"extract to UTF-8"); UnicodeStringRef::release(u); SX_ASSERT(u.empty(),"release"); }
SYMX_SCENARIO(utf8_short){ V s; mk(s,"s",0,3); utf8Check(s.ref(),s.p(),s.n); symx_reached("utf8"); }
SYMX_SCENARIO(utf8_range){ V s; mk(s,"s",0,3); int st=sx_choose("st",s.n+1),ln=sx_choose("ln",s.n-st+1); unsigned char o[16]; int k=utf8(s.p()+st,ln,o); std::string t("zz"); int r=s.ref().extract(st,ln,t,"utf-8"); SX_ASSERT(r==k&&same(t,o,k),"extract of a range to UTF-8"); SX_ASSERT(s.ref().extract(st,ln,(char*)0,"utf-8")==k,"length needed for a range"); symx_reached("range"); }
SYMX_SCENARIO(utf8_long){ int k=249+sx_choose("k",9); char16_t* b=new char16_t[k+4]; for(int i=0;i<k;++i) b[i]='a'+i%26; b[k]=sx_u16("c0"); b[k+1]=sx_u16("c1"); b[k+2]=0xdc00; b[k+3]=0; utf8Check(UnicodeStringRef((UChar const*)b,k+2),b,k+2); delete[] b; symx_reached("long"); }
SYMX_SCENARIO(trim){ V s; mk(s,"s",0,MX()); int b=0,e=s.n; while(e>b&&u_isspace(s.p()[e-1])) --e; while(b<e&&u_isspace(s.p()[b])) ++b; UnicodeStringRef r=strtrim(s.ref()); SX_ASSERT(r.length()==e-b&&(e==b||r.getBuffer()==U(s.p()+b)),"trimmed"); if(e-b!=s.n) symx_reached("trimmed"); if(e==b&&s.n>0) symx_reached("all space"); }
SYMX_SCENARIO(split){ V s; mk(s,"s",0,MX()); int dk=sx_choose("delims",2); const char16_t* D=dk?u" ;":u","; int dn=dk?2:1; bool tr=sx_choose("trim",2),em=sx_choose("empty",2); std::vector<UnicodeStringRef> v; int r=delimitedUnicodeStringRef2Vector(v,U(s.p()),s.n,U(D),tr,em); int at=0; unsigned k=0; const char16_t* p=s.p();
  while(at<s.n){ int e=at; while(e<s.n){ bool is=false; for(int q=0;q<dn;++q) is=is||p[e]==D[q]; if(is) break; ++e; } int b=at,x=e; if(tr){ while(x>b&&u_isspace(p[x-1])) --x; while(b<x&&u_isspace(p[b])) ++b; } if(em||x>b){ SX_ASSERT(k<v.size()&&v[k].length()==x-b&&(x==b||v[k].getBuffer()==U(p+b)),"piece"); ++k; } at=e+1; }
  SX_ASSERT(v.size()==k&&r==(int)k,"number of pieces"); if(k>1) symx_reached("pieces"); }
// longer views: concrete text around one symbolic unit
static const int LN[]={7,8,15,16,31,33,64,100,257,1000};
struct LV { char16_t* b; int n,at; char16_t q; const char16_t* p() const { return b+3; } UnicodeStringRef ref() const { return UnicodeStringRef((UChar const*)(b+3),n); } };
static LV mkL(int n,int at,char16_t q){ LV v={}; v.b=new char16_t[n+6]; v.n=n; v.at=at; v.q=q; for(int i=-3;i<n+3;++i) v.b[i+3]=(char16_t)(i%11==5?0x4e00+(i+9)%23:i%13==7?0xd83d:i%13==8?0xde00:0x61+(i+5)%17); v.b[at+3]=q; return v; }
static LV mkQ(){ int n=LN[sx_choose("n",10)],w=sx_choose("at",3); return mkL(n,w==0?0:w==1?n/2:n-1,sx_u16("q")); }
SYMX_SCENARIO(longer_compare){ LV s=mkQ(); char16_t r=sx_u16("r"); LV t=mkL(s.n,s.at,r); UnicodeStringRef a=s.ref(),b=t.ref(); int o=(int)(s.q>r)-(int)(s.q<r); SX_ASSERT(a.compare(b)==o&&a.compare(U(t.p()),t.n)==o&&a.compare(icu::UnicodeString(U(t.p()),t.n))==o,"compare longer views"); SX_ASSERT((a==b)==(o==0)&&(a!=b)==(o!=0)&&(a<b)==(o<0)&&(a<=b)==(o<=0)&&(a>b)==(o>0)&&(a>=b)==(o>=0),"operators on longer views");
  UnicodeStringRef c(U(t.p()),t.n-1); int e=t.at==t.n-1?1:sel(o,1); SX_ASSERT(a.compare(c)==e&&c.compare(a)==-e&&!(a==c)&&a!=c,"a shorter one comes before"); SX_ASSERT(a.compare(s.at,s.n-s.at,b,s.at,s.n-s.at)==o&&a.compareBetween(s.at,s.n,b,s.at,s.n)==o&&a.compare(0,s.at,b,0,s.at)==0,"ranges of longer views"); symx_reached(o==0?"equal":"different"); delete[] s.b; delete[] t.b; }
SYMX_SCENARIO(longer_order){ LV s=mkQ(); char16_t r=sx_u16("r"); symx_assume((unsigned)(s.at==0)|(unsigned)(((unsigned)s.p()[s.at?s.at-1:0]&0xfc00)!=0xd800)); LV t=mkL(s.n,s.at,r); if(s.at+1<s.n){ s.b[s.at+4]='y'; t.b[s.at+4]='y'; } unsigned x=s.q,y=r; SX_ASSERT(s.ref().compareCodePointOrder(t.ref())==(int)(x>y)-(int)(x<y),"code point order of longer views"); symx_reached("ordered"); delete[] s.b; delete[] t.b; }
SYMX_SCENARIO(longer_affix){ LV s=mkQ(); char16_t r=sx_u16("r"); LV t=mkL(s.n,s.at,r); int w=sx_choose("w",3),k=w==0?s.n:w==1?s.n-1:s.n/2+1; UnicodeStringRef a=s.ref(); bool pre=s.at>=k||s.q==r; SX_ASSERT(a.startsWith(UnicodeStringRef(U(t.p()),k))==pre&&a.startsWith(t.ref(),0,k)==pre&&a.startsWith(U(t.p()),k)==pre,"startsWith on longer views"); bool suf=s.at<s.n-k||s.q==r; SX_ASSERT(a.endsWith(UnicodeStringRef(U(t.p()+t.n-k),k))==suf&&a.endsWith(t.ref(),t.n-k,k)==suf&&a.endsWith(U(t.p()+t.n-k),k)==suf,"endsWith on longer views"); if(pre&&s.at<k) symx_reached("prefix"); delete[] s.b; delete[] t.b; }
SYMX_SCENARIO(longer_search){ LV s=mkQ(); UnicodeStringRef a=s.ref(); char16_t z=0x2603; int f=s.q==z?s.at:-1; SX_ASSERT(a.indexOf((UChar)z)==f&&a.lastIndexOf((UChar)z)==f&&a.indexOf((UChar32)z)==f&&a.lastIndexOf((UChar32)z)==f,"unit in a longer view"); SX_ASSERT(a.indexOf((UChar)z,s.at)==f&&a.indexOf((UChar)z,s.at+1)==-1&&a.lastIndexOf((UChar)z,0,s.at)==-1&&a.lastIndexOf((UChar)z,0,s.at+1)==f,"unit in a range of a longer view");
  int k=s.n>40?sx_choose("k",3)*16+1:3; int b=s.at-k/2; if(b<0) b=0; if(b+k>s.n) b=s.n-k; LV t=mkL(s.n,s.at,z); const char16_t* p=t.p()+b; bool in=s.at>=b&&s.at<b+k; int g=in?f>=0?b:-1:-2; if(in){ SX_ASSERT(a.indexOf(UnicodeStringRef(U(p),k))==g&&a.lastIndexOf(UnicodeStringRef(U(p),k))==g&&a.indexOf(U(p),k,0)==g&&a.lastIndexOf(U(p),k,0)==g,"pattern in a longer view"); SX_ASSERT(a.indexOf(UnicodeStringRef(U(p),k),0,b+k-1)==-1&&a.lastIndexOf(UnicodeStringRef(U(p),k),b+1)==-1&&a.indexOf(UnicodeStringRef(U(p),k),b)==g&&a.lastIndexOf(UnicodeStringRef(U(p),k),0,b+k)==g,"pattern in a range of a longer view"); } if(f>=0) symx_reached("found"); delete[] s.b; delete[] t.b; }
SYMX_SCENARIO(longer_extract){ LV s=mkQ(); UnicodeStringRef a=s.ref(); static char16_t d[1010]; for(int i=0;i<1010;++i) d[i]=0x2604; int st=sx_choose("st",2)?s.at/2:0,ln=s.n-st; a.extract(st,ln,(UChar*)d,2); unsigned bad=0; for(int i=0;i<1010;++i) bad|=(unsigned)(d[i]^(i>=2&&i<ln+2?s.p()[st+i-2]:0x2604)); SX_ASSERT(bad==0,"extract from a longer view"); icu::UnicodeString u; a.extract(st,ln,u); SX_ASSERT(u.length()==ln&&eqAt((const char16_t*)u.getBuffer(),s.p()+st,ln),"extract to a UnicodeString"); UErrorCode ec=U_ZERO_ERROR; int cap=s.n+sx_choose("cap",3)-1; static char16_t o[1010]; for(int i=0;i<1010;++i) o[i]=0x2604; int r=a.extract((UChar*)o,cap,ec); SX_ASSERT(r==s.n&&ec==(s.n<cap?U_ZERO_ERROR:s.n==cap?U_STRING_NOT_TERMINATED_WARNING:U_BUFFER_OVERFLOW_ERROR),"capacity"); bad=0; for(int i=cap;i<1010;++i) bad|=(unsigned)(o[i]^0x2604); if(s.n<=cap) for(int i=0;i<s.n;++i) bad|=(unsigned)(o[i]^s.p()[i]); SX_ASSERT(bad==0,"nothing beyond the capacity"); SX_ASSERT(a.charAt(s.at)==s.q&&a[s.at]==s.q,"unit of a longer view"); symx_reached("extracted"); delete[] s.b; }
SYMX_SCENARIO(longer_utf8){ LV s=mkQ(); static unsigned char o[3300]; int k=utf8(s.p(),s.n,o); std::string t; int r=s.ref().extractUTF8(t); SX_ASSERT(r==k&&same(t,o,k)&&same(s.ref().asUTF8(),o,k),"UTF-8 of a longer view"); std::string u; r=s.ref().extract(u,"utf-8"); SX_ASSERT(r==k&&same(u,o,k),"extract of a longer view to UTF-8"); symx_reached("utf8"); delete[] s.b; }
SYMX_SCENARIO(longer_trim){ int n=LN[sx_choose("n",10)],lead=sx_choose("lead",3)*(n/4),tail=sx_choose("tail",3)*(n/4); char16_t* b=new char16_t[n+2]; for(int i=0;i<n+2;++i) b[i]=i<=lead||i>n-tail?(char16_t)" \t\n\r"[i%4]:(char16_t)('a'+i%26); char16_t q=sx_u16("q"); int at=sx_choose("at",2)?lead:n-tail-1; b[at+1]=q; int x=0,e=n; const char16_t* p=b+1; while(e>x&&u_isspace(p[e-1])) --e; while(x<e&&u_isspace(p[x])) ++x; UnicodeStringRef r=strtrim(UnicodeStringRef(U(p),n)); SX_ASSERT(r.length()==e-x&&(e==x||r.getBuffer()==U(p+x)),"longer view trimmed"); symx_reached("trimmed"); delete[] b; }
SYMX_SCENARIO(longer_split){ int n=LN[sx_choose("n",10)]; bool tr=sx_choose("trim",2),em=sx_choose("empty",2); char16_t* p=new char16_t[n]; for(int i=0;i<n;++i) p[i]=i%7==3||i%29==4?',':i%7==2&&i%3?' ':(char16_t)('a'+i%26); p[n/2]=sx_u16("q"); std::vector<UnicodeStringRef> v; int r=delimitedUnicodeStringRef2Vector(v,U(p),n,U(u","),tr,em); int at=0; unsigned k=0,bad=0; while(at<n){ int e=at; while(e<n&&p[e]!=',') ++e; int b=at,x=e; if(tr){ while(x>b&&u_isspace(p[x-1])) --x; while(b<x&&u_isspace(p[b])) ++b; } if(em||x>b){ bad|=(unsigned)!(k<v.size()&&v[k].length()==x-b&&(x==b||v[k].getBuffer()==U(p+b))); ++k; } at=e+1; } SX_ASSERT(bad==0&&v.size()==k&&r==(int)k,"pieces of a longer view"); symx_reached("pieces"); delete[] p; }
