// U02: string tools and conversions.
// BOUND: text of 0..4 (thorough: 0..5) arbitrary ASCII characters (U+0001..U+007F) for trimming, splitting, replacing, padding, comparing without case and boolean parsing; searches in 0..4 arbitrary 8-bit or 16-bit units with patterns of 0..3 units; decimal parsing of 0..4 (thorough: 0..5) arbitrary characters; formatting of the integers +-2^k-1..+-2^k+1 (k<64, one path each)
// BOUND: concrete text of eleven lengths from 7 to 1000 characters with one (comparison: two) arbitrary characters at the start, in the middle or at the end, for case, comparison, trimming of long runs, replacing, splitting, joining, padding, sanitizing and searching
// OUTSIDE: longer text with more arbitrary characters, bytes above 0x7F in character classes; floating point text (strtod, printf)
#include "cascommon.hpp"
#include <uima/strtools.hpp>
#include <uima/strconvert.hpp>
#include <uima/stltools.hpp>
struct T { char c[12]; int n; std::string str() const { return std::string(c,n); } };
static void mk(T& t,const char* p,int lo,int hi){ memset(&t,0,sizeof t); t.n=lo+sx_choose(nm(p,0,"n"),hi-lo+1); for(int i=0;i<t.n;++i){ unsigned v=sx_u8(nm(p,i,"c"))^0x61u; symx_assume((unsigned)(v!=0)&(unsigned)(v<128)); t.c[i]=(char)v; } }
static bool sp(char c){ return (c==' ')|((unsigned)((unsigned char)c-9)<=4u); }
static char up(char c){ unsigned l=(unsigned)((unsigned char)(c-'a')<26u); return (char)(c-(char)(l<<5)); }
static char lo(char c){ unsigned l=(unsigned)((unsigned char)(c-'A')<26u); return (char)(c+(char)(l<<5)); }
static bool eq(std::string const& s,const char* p,int n){ if((int)s.length()!=n) return false; unsigned d=0; for(int i=0;i<n;++i) d|=(unsigned)(unsigned char)(s[i]^p[i]); return d==0; }
static int N(){ return symx_thorough()?5:4; }
SYMX_SCENARIO(trim){ T t; mk(t,"t",0,N()); std::string s=t.str(); int b=0,e=t.n; while(e>b&&sp(t.c[e-1])) --e; int e1=e; while(b<e&&sp(t.c[b])) ++b; SX_ASSERT(eq(strtrim(s),t.c+b,e-b),"strtrim"); SX_ASSERT(eq(strtrimr(s),t.c,e1),"strtrimr"); int b2=0; while(b2<t.n&&sp(t.c[b2])) ++b2; SX_ASSERT(eq(strtriml(s),t.c+b2,t.n-b2),"strtriml"); if(e==b&&t.n>1) symx_reached("all space"); }
SYMX_SCENARIO(trim_long){ int n=14+sx_choose("n",6); std::string s; for(int i=0;i<n;++i) s.push_back(i<n-1?' ':(char)sx_range("last",1,127)); bool a=sp(s[n-1]); std::string r=strtrim(s); SX_ASSERT(r.length()==(a?0u:1u),"long run of space"); if(!a) SX_ASSERT(r[0]==s[n-1],"kept"); else symx_reached("all space"); }
SYMX_SCENARIO(case_){ T t,u; mk(t,"t",0,N()); std::string s=t.str(),l=s; char U[12],L[12]; for(int i=0;i<t.n;++i){ U[i]=up(t.c[i]); L[i]=lo(t.c[i]); } SX_ASSERT(eq(strupper_copy(s),U,t.n)&&eq(strlower_copy(s),L,t.n),"case"); strupper(s); SX_ASSERT(eq(s,U,t.n),"upper in place"); strlower(l); SX_ASSERT(eq(l,L,t.n),"lower in place"); symx_reached("case"); }
static int sgn(int x){ return x<0?-1:x>0?1:0; }
SYMX_SCENARIO(compare){ T t,u; mk(t,"t",0,3); mk(u,"u",0,3); t.c[t.n]=0; u.c[u.n]=0; int ci=0,cs=0; for(int i=0;i<=t.n&&i<=u.n&&(ci==0||cs==0);++i){ int d=(int)t.c[i]-(int)u.c[i],e=(int)up(t.c[i])-(int)up(u.c[i]); if(cs==0) cs=sgn(d); if(ci==0) ci=sgn(e); }
  SX_ASSERT(sgn(strcmp_templ(t.c,u.c))==cs,"strcmp"); SX_ASSERT(sgn(stricmp_templ(t.c,u.c))==ci,"stricmp"); StringLessI<std::string> less; SX_ASSERT(less(t.str(),u.str())==(ci<0),"StringLessI");
  int k=sx_choose("k",5); int ki=0,ks=0; for(int i=0;i<k&&i<=t.n&&i<=u.n;++i){ if(ks==0) ks=sgn((int)t.c[i]-(int)u.c[i]); if(ki==0) ki=sgn((int)up(t.c[i])-(int)up(u.c[i])); } SX_ASSERT(sgn(strncmp_templ(t.c,u.c,(size_t)k))==ks,"strncmp"); SX_ASSERT(sgn(strnicmp_templ(t.c,u.c,(size_t)k))==ki,"strnicmp"); SX_ASSERT(strlen_templ(t.c)==(size_t)t.n,"strlen"); SX_ASSERT(strcmp_templ((char*)0,u.c)<0&&strcmp_templ(t.c,(char*)0)>0&&stricmp_templ((char*)0,u.c)<0&&stricmp_templ(t.c,(char*)0)>0,"null"); symx_reached(ci==0&&cs!=0?"differs in case only":"compared"); }
SYMX_SCENARIO(pad){ T t; mk(t,"t",0,3); int k=sx_choose("k",6); char pc=(char)(sx_u8("pc")); std::string s=t.str(); char r[12],l[12]; int m=k>t.n?k:t.n; for(int i=0;i<m;++i){ r[i]=i<t.n?t.c[i]:pc; l[i]=i<m-t.n?pc:t.c[i-(m-t.n)]; } SX_ASSERT(eq(strpad_r_copy(s,(size_t)k,pc),r,m),"right"); SX_ASSERT(eq(strpad_l_copy(s,(size_t)k,pc),l,m),"left"); for(int i=0;i<m;++i){ if(i>=t.n) r[i]=' '; if(i<m-t.n) l[i]=' '; } SX_ASSERT(eq(strpad_r_copy(s,(size_t)k),r,m)&&eq(strpad_l_copy(s,(size_t)k),l,m),"with blanks"); symx_reached("pad"); }
SYMX_SCENARIO(replace_char){ T t; mk(t,"t",0,N()); char a=(char)sx_u8("a"),b=(char)sx_u8("b"); symx_assume((unsigned)(a!=0)&(unsigned)(b!=0)); std::string s=t.str(); strreplaceallchar(s,a,b); char e[12]; memset(e,0,12); for(int i=0;i<t.n;++i) e[i]=t.c[i]==a?b:t.c[i]; SX_ASSERT(eq(s,e,t.n),"string"); char z[12]; memcpy(z,t.c,12); strreplaceallchar(z,a,b); SX_ASSERT(eq(std::string(z,t.n),e,t.n)&&z[t.n]==0,"pointer"); symx_reached("replaced"); }
SYMX_SCENARIO(replace_text){ T t,a,b; mk(t,"t",0,N()); mk(a,"a",1,2); mk(b,"b",0,3); std::string s=t.str(); strreplaceall(s,a.str(),b.str()); char e[40]; int k=0,i=0,hits=0; while(i<t.n){ bool m=i+a.n<=t.n; for(int j=0;j<a.n&&m;++j) m=t.c[i+j]==a.c[j]; if(m){ for(int j=0;j<b.n;++j) e[k++]=b.c[j]; i+=a.n; ++hits; } else e[k++]=t.c[i++]; } SX_ASSERT(eq(s,e,k),"every occurrence, nothing else"); if(hits>1) symx_reached("several"); }
template<class C> static void finds(const char* n1,const char* n2,unsigned w){ C h[5],p[4]; int n=sx_choose("n",5),m=sx_choose("m",4); for(int i=0;i<n;++i) h[i]=(C)symx_input(nm(n1,i),w); for(int i=0;i<m;++i) p[i]=(C)symx_input(nm(n2,i),w); size_t f=STRING_NPOS,fo=STRING_NPOS,fn=STRING_NPOS,fc=STRING_NPOS;
  for(int i=n-m;i>=0;--i){ unsigned d=0; for(int j=0;j<m;++j) d|=(unsigned)(h[i+j]^p[j]); if(d==0) f=i; }
  SX_ASSERT(str_find_first(p,(size_t)m,h,(size_t)n)==f,"pattern"); if(m>0){ for(int i=n-1;i>=0;--i){ unsigned in=0; for(int j=0;j<m;++j) in|=(unsigned)(h[i]==p[j]); if(in) fo=i; else fn=i; if(h[i]==p[0]) fc=i; } SX_ASSERT(str_find_first_of(p,(size_t)m,h,(size_t)n)==fo,"one of"); SX_ASSERT(str_find_first_not_of(p,(size_t)m,h,(size_t)n)==fn,"not of"); SX_ASSERT(str_find_first(p[0],h,(size_t)n)==fc,"unit"); } symx_reached(f==STRING_NPOS?"absent":"present"); }
SYMX_SCENARIO(find8){ finds<char>("h","p",8); }
SYMX_SCENARIO(find16){ finds<char16_t>("h","p",16); }
SYMX_SCENARIO(split){ T t; mk(t,"t",0,N()); int dk=sx_choose("delims",3); const char* D=dk==0?" ":dk==1?":":",;"; bool tr=sx_choose("trim",2),em=sx_choose("empty",2); if(dk==0){ tr=true; em=false; } std::vector<std::string> v; size_t r=delimitedString2Vector(v,t.str(),D,tr,em); int at=0; unsigned k=0;
  while(at<t.n){ int e=at; while(e<t.n){ bool is=false; for(const char* q=D;*q;++q) is=is||t.c[e]==*q; if(is) break; ++e; } int b=at,x=e; if(tr){ while(x>b&&sp(t.c[x-1])) --x; while(b<x&&sp(t.c[b])) ++b; } if(em||x>b){ SX_ASSERT(k<v.size()&&eq(v[k],t.c+b,x-b),"piece"); ++k; } at=e+1; }
  SX_ASSERT(v.size()==k&&r==k,"number of pieces"); if(k>1) symx_reached("pieces"); }
SYMX_SCENARIO(join){ int n=sx_choose("n",4); T t[3],d; mk(d,"d",0,2); std::vector<std::string> v; char e[40]; int k=0; for(int i=0;i<n;++i){ mk(t[i],nm("t",i,"_"),0,2); v.push_back(t[i].str()); if(i) for(int j=0;j<d.n;++j) e[k++]=d.c[j]; for(int j=0;j<t[i].n;++j) e[k++]=t[i].c[j]; } SX_ASSERT(eq(vector2delimitedStr(v,d.str()),e,k),"joined"); symx_reached("joined"); }
SYMX_SCENARIO(sanitize){ T t; mk(t,"t",0,N()); std::string s=t.str(); char e[12]; for(int i=0;i<t.n;++i){ unsigned char c=(unsigned char)t.c[i]; unsigned ok=(unsigned)((unsigned)(c-'0')<10u)|(unsigned)((unsigned)(c-'a')<26u)|(unsigned)((unsigned)(c-'A')<26u); e[i]=ok?t.c[i]:'_'; } SX_ASSERT(eq(sanitzeString_copy(s),e,t.n),"copy"); sanitzeString(s); SX_ASSERT(eq(s,e,t.n),"in place"); symx_reached("sanitized"); }
SYMX_SCENARIO(parse_bool){ T t; mk(t,"t",0,N()); static const char* W[]={"1","+","TRUE","ON","YES","T","Y"}; bool e=false; for(int w=0;w<7;++w){ int m=(int)strlen(W[w]); if(m!=t.n) continue; unsigned d=0; for(int i=0;i<m;++i) d|=(unsigned)(unsigned char)(up(t.c[i])^W[w][i]); e=e|(d==0); } bool b=string2Bool(t.str()); SX_ASSERT(b==e,"string2Bool"); bool x=!e; convertFromString(t.str(),x); SX_ASSERT(x==e,"convertFromString"); std::string s; convertToString(e,s); SX_ASSERT(string2Bool(s)==e,"back"); if(e) symx_reached("true"); }
SYMX_SCENARIO(parse_long){ T t; mk(t,"t",0,symx_thorough()?5:4); int i=0; while(i<t.n&&sp(t.c[i])) ++i; bool neg=false; if(i<t.n&&(t.c[i]=='-'||t.c[i]=='+')){ neg=t.c[i]=='-'; ++i; } long v=0; int dg=0; while(i<t.n&&(unsigned)((unsigned char)t.c[i]-'0')<10u){ v=v*10+(t.c[i]-'0'); ++i; ++dg; } if(neg) v=-v; long g=string2Long(t.str()); SX_ASSERT(g==v,"string2Long"); int n=7; convertFromString(t.str(),n); SX_ASSERT(n==(int)v,"convertFromString"); symx_observe((uint64_t)g); if(dg>2) symx_reached("number"); }
SYMX_SCENARIO(format_long){ int k=sx_choose("k",64),o=sx_choose("o",3)-1; bool neg=sx_choose("neg",2); long l=(long)((1ul<<k)+(unsigned long)o); if(neg) l=(long)(0ul-(unsigned long)l); std::string s; long2String(l,s); char b[24]; int n=0; unsigned long u=l<0?0ul-(unsigned long)l:(unsigned long)l; char r[24]; int m=0; do { r[m++]=(char)('0'+u%10); u/=10; } while(u); if(l<0) b[n++]='-'; while(m) b[n++]=r[--m]; SX_ASSERT(eq(s,b,n),"long2String"); SX_ASSERT(string2Long(s)==l,"back"); std::string c; convertToString(l,c); SX_ASSERT(c==s,"convertToString"); symx_reached("formatted"); }
SYMX_SCENARIO(convert_text){ T t; mk(t,"t",0,3); std::string s=t.str(),o; convertToString(s,o); SX_ASSERT(eq(o,t.c,t.n),"string"); icu::UnicodeString u; convertFromString(s,u); SX_ASSERT(u.length()==t.n,"length"); unsigned d=0; for(int i=0;i<t.n&&i<u.length();++i) d|=(unsigned)(u.getBuffer()[i]^(unsigned char)t.c[i]); SX_ASSERT(d==0,"to Unicode"); convertToString(u,o); SX_ASSERT(eq(o,t.c,t.n),"back"); symx_reached("text"); }
// longer texts: concrete around one symbolic character
static const int LN[]={7,8,15,16,17,31,33,64,100,257,1000};
static int Lq(int& at){ int n=LN[sx_choose("n",11)],w=sx_choose("at",3); at=w==0?0:w==1?n/2:n-1; return n; }
static char q_(const char* n){ unsigned v=sx_u8(n)^0x61u; symx_assume((unsigned)(v!=0)&(unsigned)(v<128)); return (char)v; }
static std::string body_(int n){ std::string s((size_t)n,' '); for(int i=0;i<n;++i) s[i]=i%11==5?'.':i%3?(char)('a'+i%26):(char)('A'+i%26); return s; }
SYMX_SCENARIO(longer_case){ int at,n=Lq(at); std::string s=body_(n); s[at]=q_("q"); std::string U=s,L=s; for(int i=0;i<n;++i){ U[i]=up(s[i]); L[i]=lo(s[i]); } SX_ASSERT(eq(strupper_copy(s),U.data(),n)&&eq(strlower_copy(s),L.data(),n),"case of longer text"); std::string a=s,b=s; strupper(a); strlower(b); SX_ASSERT(eq(a,U.data(),n)&&eq(b,L.data(),n),"case of longer text in place"); symx_reached("case"); }
SYMX_SCENARIO(longer_compare){ int at,n=Lq(at); std::string s=body_(n),t=strlower_copy(s); s[at]=q_("q"); t[at]=q_("r"); int e=sgn((int)up(s[at])-(int)up(t[at])); SX_ASSERT(sgn(stricmp_templ(s.c_str(),t.c_str()))==e,"stricmp of longer text"); StringLessI<std::string> less; SX_ASSERT(less(s,t)==(e<0)&&less(t,s)==(e>0),"StringLessI"); SX_ASSERT(sgn(strnicmp_templ(s.c_str(),t.c_str(),(size_t)at+1))==e&&strnicmp_templ(s.c_str(),t.c_str(),(size_t)at)==0,"strnicmp"); std::string u=s; u[at]=t[at]; int d=sgn((int)s[at]-(int)u[at]); SX_ASSERT(sgn(strcmp_templ(s.c_str(),u.c_str()))==d&&sgn(strncmp_templ(s.c_str(),u.c_str(),(size_t)n))==d&&strncmp_templ(s.c_str(),u.c_str(),(size_t)at)==0&&strlen_templ(s.c_str())==(size_t)n,"strcmp"); symx_reached(e==0?"same":"different"); }
SYMX_SCENARIO(longer_trim){ int at,n=Lq(at); int l=sx_choose("l",3)*n/4,r=sx_choose("r",3)*n/4; std::string s=body_(n); for(int i=0;i<l;++i) s[i]=" \t\n"[i%3]; for(int i=n-r;i<n;++i) s[i]=" \t\r"[i%3]; s[at]=q_("q"); int b=0,e=n; while(e>b&&sp(s[e-1])) --e; int e1=e; while(b<e&&sp(s[b])) ++b; int b2=0; while(b2<n&&sp(s[b2])) ++b2; SX_ASSERT(eq(strtrim(s),s.data()+b,e-b)&&eq(strtrimr(s),s.data(),e1)&&eq(strtriml(s),s.data()+b2,n-b2),"longer text trimmed"); symx_reached("trimmed"); }
SYMX_SCENARIO(longer_replace){ int at,n=Lq(at); std::string s=body_(n); s[at]=q_("q"); int k=sx_choose("k",3); std::string a=k==0?".":k==1?"bA":"xYzA",b=k==0?"":k==1?"longer one":"s"; if(k==2) for(int i=0;i+4<n;i+=9) for(int j=0;j<4;++j) if(i+j!=at) s[i+j]=a[j]; std::string e; int i=0,hits=0; while(i<n){ bool m=i+(int)a.length()<=n; for(unsigned j=0;j<a.length()&&m;++j) m=s[i+j]==a[j]; if(m){ e+=b; i+=(int)a.length(); ++hits; } else e.push_back(s[i++]); } std::string t=s; strreplaceall(t,a,b); SX_ASSERT(eq(t,e.data(),(int)e.length()),"every occurrence in longer text"); std::string c=s; strreplaceallchar(c,'.','#'); std::string f=s; for(int j=0;j<n;++j) f[j]=s[j]=='.'?'#':s[j]; SX_ASSERT(eq(c,f.data(),n),"every character in longer text"); if(hits>1) symx_reached("several"); }
SYMX_SCENARIO(longer_split){ int at,n=Lq(at); std::string s=body_(n); for(int i=0;i<n;++i) if(i%7==3||i%29==4) s[i]=','; else if(i%7==2&&i%3) s[i]=' '; s[at]=q_("q"); bool tr=sx_choose("trim",2),em=sx_choose("empty",2); std::vector<std::string> v; size_t r=delimitedString2Vector(v,s,",",tr,em); int p=0; unsigned k=0,bad=0; while(p<n){ int e=p; while(e<n&&s[e]!=',') ++e; int b=p,x=e; if(tr){ while(x>b&&sp(s[x-1])) --x; while(b<x&&sp(s[b])) ++b; } if(em||x>b){ bad|=(unsigned)!(k<v.size()&&eq(v[k],s.data()+b,x-b)); ++k; } p=e+1; } SX_ASSERT(bad==0&&v.size()==k&&r==k,"pieces of longer text"); if(em&&!tr){ std::string j=vector2delimitedStr(v,std::string(",")); int m=n>0&&s[n-1]==','?n-1:n; SX_ASSERT(eq(j,s.data(),m),"joined again"); } symx_reached("pieces"); }
SYMX_SCENARIO(longer_rest){ int at,n=Lq(at); std::string s=body_(n); s[at]=q_("q"); std::string e=s; for(int i=0;i<n;++i){ unsigned char c=(unsigned char)s[i]; unsigned ok=(unsigned)((unsigned)(c-'0')<10u)|(unsigned)((unsigned)(c-'a')<26u)|(unsigned)((unsigned)(c-'A')<26u); e[i]=ok?s[i]:'_'; } SX_ASSERT(eq(sanitzeString_copy(s),e.data(),n),"longer text sanitized"); int k=n+sx_choose("k",3)*20; std::string r=strpad_r_copy(s,(size_t)k,'-'),l=strpad_l_copy(s,(size_t)k,'-'); std::string f((size_t)(k-n),'-'); SX_ASSERT(eq(r,(s+f).data(),k)&&eq(l,(f+s).data(),k),"padded"); size_t w=STRING_NPOS; for(int i=n-1;i>=0;--i) if(s[i]=='~') w=i; SX_ASSERT(str_find_first('~',s.data(),(size_t)n)==w&&str_find_first("~",(size_t)1,s.data(),(size_t)n)==w&&str_find_first_of("~!",(size_t)2,s.data(),(size_t)n)==(s[at]=='~'||s[at]=='!'?(size_t)at:STRING_NPOS),"found in longer text"); std::string o; convertToString(s,o); SX_ASSERT(eq(o,s.data(),n),"string"); symx_reached("rest"); }
