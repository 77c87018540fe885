// XML between the writers and the deserializers. Symbolic bytes written to a stream, which the library's streams would pin, travel
// as placeholders; an XML processor of the harness (attributes, elements, references, attribute-value and line-end normalisation)
// feeds the real SAX handlers. The native replay uses the real streams and the real parser.
#ifndef XML_HPP
#define XML_HPP
#include "ser.hpp"
#include <sstream>
#include <xercesc/sax2/Attributes.hpp>
#include <xercesc/framework/MemBufInputSource.hpp>
#include <xercesc/sax2/SAX2XMLReader.hpp>
#include <xercesc/sax2/ContentHandler.hpp>
#include <xercesc/sax2/XMLReaderFactory.hpp>
#include <uima/xmlerror_handler.hpp>
extern "C" int symx_symbolic(uint64_t v);
struct Sym { unsigned char* p; int n; }; static Sym xSym[64]; static int xNSym;
#ifdef SYMX_SYMBOLIC
static void xPut(std::ostream& os,const unsigned char* p,int n){ if(xNSym>=64) abort(); unsigned char* q=(unsigned char*)malloc(n?n:1); for(int i=0;i<n;++i) q[i]=p[i]; xSym[xNSym].p=q; xSym[xNSym].n=n; char b[3]={1,(char)(2+xNSym),0}; ++xNSym; os.write(b,2); }
static std::ostream& xOut(std::ostream& os,const char* p,long n){ int s=0; for(long i=0;i<n;++i) s|=symx_symbolic((unsigned char)p[i]); if(s) xPut(os,(const unsigned char*)p,(int)n); else os.write(p,n); return os; }
// integers: written as tokens that stand for their decimal digits and that the number parsers of the library turn back into the value
static long xInt[32]; static int xNInt; extern "C" int (*symx_numtok)(const char*,long*);
static int xTok(const char* s,long* v){ if(s[0]!='@') return 0; int k=s[1]-'A'; if(s[2]!='@'||k<0||k>=xNInt) return 0; *v=xInt[k]; return 1; }
static std::ostream& xNum(std::ostream& os,long v){ if(!symx_symbolic((uint64_t)v)){ char b[24]; int n=0; bool neg=v<0; unsigned long u=neg?0-(unsigned long)v:(unsigned long)v; do { b[n++]=(char)('0'+u%10); u/=10; } while(u); if(neg) b[n++]='-'; for(int k=0;k<n/2;++k){ char c=b[k]; b[k]=b[n-1-k]; b[n-1-k]=c; } os.write(b,n); return os; } symx_numtok=xTok; if(xNInt>=32) abort(); xInt[xNInt]=v; char t[4]={'@',(char)('A'+xNInt++),'@',0}; os.write(t,3); return os; }
static bool xGet(std::istream& is,long& v){ std::string t; while(is.peek()!=EOF&&is.peek()!=' '){ t+=(char)is.get(); } if(xTok(t.c_str(),&v)) return true; char* e; v=strtol(t.c_str(),&e,10); if(e==t.c_str()){ v=0; is.setstate(std::ios::failbit); } return true; }
extern "C" {
std::ostream& _ZNSolsEi(std::ostream* os,int v){ return xNum(*os,v); } std::ostream& _ZNSolsEs(std::ostream* os,short v){ return xNum(*os,v); } std::ostream& _ZNSo9_M_insertIlEERSoT_(std::ostream* os,long v){ return xNum(*os,v); } std::ostream& _ZNSo9_M_insertIxEERSoT_(std::ostream* os,long long v){ return xNum(*os,v); }
std::istream& _ZNSirsERs(std::istream* is,short& v){ long x; xGet(*is,x); if(x<-32768){ x=-32768; is->setstate(std::ios::failbit); } if(x>32767){ x=32767; is->setstate(std::ios::failbit); } v=(short)x; return *is; }
std::istream& _ZNSirsERi(std::istream* is,int& v){ long x; xGet(*is,x); if(x<-2147483648l){ x=-2147483648l; is->setstate(std::ios::failbit); } if(x>2147483647l){ x=2147483647l; is->setstate(std::ios::failbit); } v=(int)x; return *is; }
std::istream& _ZNSi10_M_extractIlEERSiRT_(std::istream* is,long& v){ xGet(*is,v); return *is; }
std::istream& _ZNSi10_M_extractIxEERSiRT_(std::istream* is,long long& v){ long x; xGet(*is,x); v=x; return *is; }
std::ostream& _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(std::ostream& os,const char* p,long n){ return xOut(os,p,n); }
}
#endif
// ---- a small XML processor over bytes (some symbolic)
struct XAttr { std::u16string q,v; }; struct XAttrs : public xercesc::Attributes { XAttr a[24]; int n; std::u16string e;
  XAttrs():n(0){} XMLSize_t getLength() const { return n; } const XMLCh* getURI(const XMLSize_t) const { return (XMLCh*)e.c_str(); } const XMLCh* getLocalName(const XMLSize_t i) const { return (XMLCh*)a[i].q.c_str(); } const XMLCh* getQName(const XMLSize_t i) const { return (XMLCh*)a[i].q.c_str(); } const XMLCh* getType(const XMLSize_t) const { return (XMLCh*)u"CDATA"; } const XMLCh* getValue(const XMLSize_t i) const { return (XMLCh*)a[i].v.c_str(); }
  bool getIndex(const XMLCh* const,const XMLCh* const,XMLSize_t&) const { return false; } int getIndex(const XMLCh* const,const XMLCh* const) const { return -1; } bool getIndex(const XMLCh* const,XMLSize_t&) const { return false; } int getIndex(const XMLCh* const) const { return -1; } const XMLCh* getType(const XMLCh* const,const XMLCh* const) const { return 0; } const XMLCh* getType(const XMLCh* const) const { return 0; } const XMLCh* getValue(const XMLCh* const,const XMLCh* const) const { return 0; }
  const XMLCh* getValue(const XMLCh* const q) const { for(int i=0;i<n;++i) if(a[i].q==std::u16string((char16_t*)q)) return getValue(i); return 0; } };
struct XmlErr { const char* what; };
static void xBad(const char* w){ throw XmlErr{w}; }
struct XParser { unsigned char* b; int n,i; xercesc::ContentHandler* h; std::string pre[24],uri[24]; int np;
  XParser():np(0){ pre[np]="xml"; uri[np++]="x"; }
  int peek(){ return i<n?b[i]:-1; }
  bool lit(const char* s){ int k=0; while(s[k]){ if(i+k>=n||b[i+k]!=(unsigned char)s[k]) return false; ++k; } i+=k; return true; }
  static bool nameC(int c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9')||c=='_'||c=='-'||c=='.'||c==':'||c>=0x80; }
  static bool nameS(int c){ return nameC(c)&&!(c>='0'&&c<='9')&&c!='-'&&c!='.'; }
  std::string name(){ std::string s; if(!nameS(peek())) xBad("name expected"); while(nameC(peek())){ s+=(char)b[i]; ++i; } return s; }
  bool ws(){ bool r=false; while(peek()==' '||peek()=='\n'||peek()=='\t'||peek()=='\r'){ ++i; r=true; } return r; }
  // one character of content: reference, UTF-8 sequence
  void ch(std::u16string& o,bool attr){ int c=b[i]; if(c=='&'){ ++i; if(lit("amp;")) o+=u'&'; else if(lit("lt;")) o+=u'<'; else if(lit("gt;")) o+=u'>'; else if(lit("quot;")) o+=u'"'; else if(lit("apos;")) o+=u'\''; else if(lit("#x")){ int v=0,k=0; while(peek()!=';'&&k<6){ int d=peek(); v=v*16+(d>='0'&&d<='9'?d-'0':(d|32)>='a'&&(d|32)<='f'?(d|32)-'a'+10:(xBad("reference"),0)); ++i; ++k; } if(!lit(";")) xBad("reference"); cp(o,v); } else if(lit("#")){ int v=0,k=0; while(peek()!=';'&&k<7){ int d=peek(); if(d<'0'||d>'9') xBad("reference"); v=v*10+d-'0'; ++i; ++k; } if(!k||!lit(";")) xBad("reference"); cp(o,v); } else xBad("bare &"); return; }
    ++i; if(c=='\r'){ if(peek()=='\n') ++i; c='\n'; } if(attr&&(c=='\n'||c=='\t')) c=' ';
    if(c<0x80){ if(c<0x20&&c!='\n'&&c!='\t') xBad("control character"); o+=(char16_t)c; return; }
    int k=c>=0xf0?3:c>=0xe0?2:c>=0xc2?1:0; if(!k||c>0xf4||i+k>n) xBad("UTF-8"); int v=c&(0x3f>>k); while(k--){ if((b[i]&0xc0)!=0x80) xBad("UTF-8"); v=(v<<6)|(b[i]&0x3f); ++i; } if(v>=0xd800&&v<0xe000) xBad("UTF-8"); if(v==0xfffe||v==0xffff) xBad("not a character"); cp(o,v); }
  void cp(std::u16string& o,int v){ if(v>0xffff){ o+=(char16_t)(0xd7c0+(v>>10)); o+=(char16_t)(0xdc00+(v&0x3ff)); } else { if(v<0x20&&v!=9&&v!=10&&v!=13) xBad("control character"); o+=(char16_t)v; } }
  static std::u16string w(const std::string& s){ std::u16string r; for(size_t k=0;k<s.size();++k) r+=(char16_t)(unsigned char)s[k]; return r; }
  void element(int depth){ std::string q=name(); XAttrs* at=new XAttrs(); int save=np;
    for(;;){ bool sp=ws(); int c=peek(); if(c=='/'||c=='>') break; if(!sp) xBad("space before an attribute expected"); std::string an=name(); ws(); if(!lit("=")) xBad("= expected"); ws(); int qc=peek(); if(qc!='"'&&qc!='\'') xBad("quote expected"); ++i; std::u16string v; while(peek()!=qc){ if(peek()<0) xBad("end of document"); if(peek()=='<') xBad("< in attribute"); ch(v,true); } ++i;
      if(at->n>=24) abort(); for(int k=0;k<at->n;++k) if(at->a[k].q==w(an)) xBad("attribute given twice"); at->a[at->n].q=w(an); at->a[at->n++].v=v;
      if(an.compare(0,6,"xmlns:")==0){ std::string u; for(size_t k=0;k<v.size();++k) u+=(char)v[k]; if(np>=24) abort(); for(int k=save;k<np;++k) if(pre[k]==an.substr(6)) xBad("prefix twice"); pre[np]=an.substr(6); uri[np++]=u; } }
    size_t co=q.find(':'); std::string ur,ln=q; if(co!=std::string::npos){ ln=q.substr(co+1); std::string p=q.substr(0,co); int k=np-1; while(k>=0&&pre[k]!=p) --k; if(k<0) xBad("undeclared prefix"); ur=uri[k]; }
    std::u16string wu=w(ur),wl=w(ln),wq=w(q); for(int k=0;k<at->n;++k){ std::u16string& aq=at->a[k].q; size_t c2=aq.find(u':'); if(c2!=std::u16string::npos&&aq.compare(0,5,u"xmlns")!=0){ int m=np-1; while(m>=0&&w(pre[m])!=aq.substr(0,c2)) --m; if(m<0) xBad("undeclared prefix"); } }
    h->startElement((XMLCh*)wu.c_str(),(XMLCh*)wl.c_str(),(XMLCh*)wq.c_str(),*at);
    if(lit("/>")) { } else { if(!lit(">")) xBad("> expected"); std::u16string t;
      for(;;){ int c=peek(); if(c<0) xBad("end of document"); if(c=='<'){ if(t.size()){ h->characters((XMLCh*)t.c_str(),t.size()); t.clear(); } ++i; if(lit("/")){ std::string e=name(); ws(); if(e!=q||!lit(">")) xBad("end tag"); break; } if(depth>6) abort(); element(depth+1); } else { if(c==']'&&i+2<n&&b[i+1]==']'&&b[i+2]=='>') xBad("]]> in text"); ch(t,false); } } }
    h->endElement((XMLCh*)wu.c_str(),(XMLCh*)wl.c_str(),(XMLCh*)wq.c_str()); np=save; delete at; }
  void parse(){ i=0; h->startDocument(); if(lit("<?xml")){ while(!lit("?>")){ if(i>=n) xBad("end of document"); ++i; } } ws(); if(!lit("<")) xBad("root expected"); element(0); ws(); if(i<n) xBad("text after the root"); h->endDocument(); } };
#ifdef SYMX_SYMBOLIC
static const std::string* xDoc; // the document about to be parsed
static void xParse(const std::string& s,xercesc::ContentHandler* h){ int n=0; for(size_t k=0;k<s.size();++k) if(s[k]==1){ n+=xSym[s[k+1]-2].n; ++k; } else ++n; XParser x; x.b=(unsigned char*)malloc(n?n:1); x.n=0; for(size_t k=0;k<s.size();++k) if(s[k]==1){ Sym& y=xSym[s[k+1]-2]; for(int j=0;j<y.n;++j) x.b[x.n++]=y.p[j]; ++k; } else x.b[x.n++]=(unsigned char)s[k]; x.h=h; x.parse(); }
namespace xercesc_3_2 {
struct XReader : public SAX2XMLReader { ContentHandler* h;
 ContentHandler* getContentHandler() const { return 0; } DTDHandler* getDTDHandler() const { return 0; } EntityResolver* getEntityResolver() const { return 0; } ErrorHandler* getErrorHandler() const { return 0; } bool getFeature(const XMLCh* const name) const { return 0; } void* getProperty(const XMLCh* const name) const { return 0; } void setContentHandler(ContentHandler* const x) { h=x; } void setDTDHandler(DTDHandler* const handler) { } void setEntityResolver(EntityResolver* const resolver) { } void setErrorHandler(ErrorHandler* const handler) { } void setFeature(const XMLCh* const name, const bool value) { } void setProperty(const XMLCh* const name, void* value) { } void parse(const InputSource& source) { xParse(*xDoc,h); } void parse ( const XMLCh* const systemId ) { } void parse ( const char* const systemId ) { } DeclHandler* getDeclarationHandler() const { return 0; } LexicalHandler* getLexicalHandler() const { return 0; } void setDeclarationHandler(DeclHandler* const handler) { } void setLexicalHandler(LexicalHandler* const handler) { } XMLValidator* getValidator() const { return 0; } XMLSize_t getErrorCount() const { return 0; } bool getExitOnFirstFatalError() const { return 0; } bool getValidationConstraintFatal() const { return 0; } Grammar* getGrammar(const XMLCh* const nameSpaceKey) { return 0; } Grammar* getRootGrammar() { return 0; } const XMLCh* getURIText(unsigned int uriId) const { return 0; } XMLFilePos getSrcOffset() const { return 0; } void setValidator(XMLValidator* valueToAdopt) { } void setExitOnFirstFatalError(const bool newState) { } void setValidationConstraintFatal(const bool newState) { } bool parseFirst ( const XMLCh* const systemId , XMLPScanToken& toFill ) { return 0; } bool parseFirst ( const char* const systemId , XMLPScanToken& toFill ) { return 0; } bool parseFirst ( const InputSource& source , XMLPScanToken& toFill ) { return 0; } bool parseNext(XMLPScanToken& token) { return 0; } void parseReset(XMLPScanToken& token) { } Grammar* loadGrammar(const InputSource& source, const Grammar::GrammarType grammarType, const bool toCache ) { return 0; } Grammar* loadGrammar(const XMLCh* const systemId, const Grammar::GrammarType grammarType, const bool toCache ) { return 0; } Grammar* loadGrammar(const char* const systemId, const Grammar::GrammarType grammarType, const bool toCache ) { return 0; } void resetCachedGrammarPool() { } void installAdvDocHandler(XMLDocumentHandler* const toInstall) { } bool removeAdvDocHandler(XMLDocumentHandler* const toRemove) { return 0; } };
SAX2XMLReader* XMLReaderFactory::createXMLReader(MemoryManager* const,XMLGrammarPool* const){ return new XReader(); }
}
#endif
static xercesc::MemBufInputSource* xSource(const std::string& s){
#ifdef SYMX_SYMBOLIC
  xDoc=&s; for(size_t k=0;k<s.size();++k) if((unsigned char)s[k]<9) { static const char e[]="<x/>"; return new xercesc::MemBufInputSource((const XMLByte*)e,4,"doc"); }
#endif
  return new xercesc::MemBufInputSource((const XMLByte*)s.data(),s.size(),"doc"); }
#endif
