// Instrumented versions of libc functions that look at (possibly symbolic) memory.  Compiled with the pass, -fno-builtin.
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
int symxlib_memcmp(const void*a,const void*b,size_t n){ const unsigned char*x=a,*y=b; for(size_t i=0;i<n;++i) if(x[i]!=y[i]) return x[i]<y[i]?-1:1; return 0; }
int symxlib_bcmp(const void*a,const void*b,size_t n){ const unsigned char*x=a,*y=b; for(size_t i=0;i<n;++i) if(x[i]!=y[i]) return 1; return 0; }
size_t symxlib_strlen(const char*s){ size_t n=0; while(s[n]) ++n; return n; }
size_t symxlib_wcslen(const int*s){ size_t n=0; while(s[n]) ++n; return n; }
int symxlib_strcmp(const char*a,const char*b){ const unsigned char*x=(const unsigned char*)a,*y=(const unsigned char*)b; while(*x&&*x==*y){++x;++y;} return *x==*y?0:*x<*y?-1:1; }
int symxlib_strncmp(const char*a,const char*b,size_t n){ const unsigned char*x=(const unsigned char*)a,*y=(const unsigned char*)b; for(size_t i=0;i<n;++i){ if(x[i]!=y[i]) return x[i]<y[i]?-1:1; if(!x[i]) return 0; } return 0; }
void* symxlib_memchr(const void*s,int c,size_t n){ const unsigned char*x=s; for(size_t i=0;i<n;++i) if(x[i]==(unsigned char)c) return (void*)(x+i); return 0; }
char* symxlib_strchr(const char*s,int c){ for(;;++s){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
char* symxlib_strrchr(const char*s,int c){ const char*r=0; for(;;++s){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
char* symxlib_strcpy(char*d,const char*s){ char*r=d; while((*d=*s)){++d;++s;} return r; }
char* symxlib_strncpy(char*d,const char*s,size_t n){ size_t i=0; for(;i<n&&s[i];++i) d[i]=s[i]; for(;i<n;++i) d[i]=0; return d; }
char* symxlib_strcat(char*d,const char*s){ symxlib_strcpy(d+symxlib_strlen(d),s); return d; }
char* symxlib_strstr(const char*h,const char*n){ for(;;++h){ size_t i=0; while(n[i]&&h[i]==n[i]) ++i; if(!n[i]) return (char*)h; if(!*h) return 0; } }
char* symxlib_strpbrk(const char*s,const char*a){ for(;*s;++s) for(const char*p=a;*p;++p) if(*p==*s) return (char*)s; return 0; }
size_t symxlib_strspn(const char*s,const char*a){ size_t n=0; for(;s[n];++n){ int in=0; for(const char*p=a;*p;++p) in|=(*p==s[n]); if(!in) break; } return n; }
size_t symxlib_strcspn(const char*s,const char*a){ size_t n=0; for(;s[n];++n){ int in=0; for(const char*p=a;*p;++p) in|=(*p==s[n]); if(in) break; } return n; }
// C locale
int symxlib_isspace(int c){ return (c==32)|((unsigned)(c-9)<=4u); }
int symxlib_isdigit(int c){ return (unsigned)(c-'0')<10u; }
int symxlib_isupper(int c){ return (unsigned)(c-'A')<26u; }
int symxlib_islower(int c){ return (unsigned)(c-'a')<26u; }
int symxlib_isalpha(int c){ return symxlib_isupper(c)|symxlib_islower(c); }
int symxlib_isalnum(int c){ return symxlib_isalpha(c)|symxlib_isdigit(c); }
int symxlib_isxdigit(int c){ return symxlib_isdigit(c)||(c>='a'&&c<='f')||(c>='A'&&c<='F'); }
int symxlib_isprint(int c){ return c>=32&&c<127; }
int symxlib_ispunct(int c){ return symxlib_isprint(c)&&c!=32&&!symxlib_isalnum(c); }
int symxlib_isgraph(int c){ return c>32&&c<127; }
int symxlib_toupper(int c){ return c-(symxlib_islower(c)<<5); }
int symxlib_tolower(int c){ return c+(symxlib_isupper(c)<<5); }
int symxlib_strcasecmp(const char*a,const char*b){ for(;;++a,++b){ int x=symxlib_tolower((unsigned char)*a),y=symxlib_tolower((unsigned char)*b); if(x!=y) return x<y?-1:1; if(!x) return 0; } }
int symxlib_abs(int x){ return x<0?-x:x; }
long symxlib_labs(long x){ return x<0?-x:x; }
int (*symx_numtok)(const char*,long*); // set by a harness: numbers that travel as tokens
static int dig(int c){ if(c>='0'&&c<='9') return c-'0'; if(c>='a'&&c<='z') return c-'a'+10; if(c>='A'&&c<='Z') return c-'A'+10; return 99; }
unsigned long symxlib_strtoul(const char*s,char**e,int base){ long tv; if(symx_numtok&&symx_numtok(s,&tv)){ if(e) *e=(char*)s+symxlib_strlen(s); return (unsigned long)tv; }
  const char*p=s; while(symxlib_isspace((unsigned char)*p)) ++p; int neg=0; if(*p=='-'){neg=1;++p;} else if(*p=='+') ++p;
  if((base==0||base==16)&&p[0]=='0'&&(p[1]=='x'||p[1]=='X')&&dig(p[2])<16){ p+=2; base=16; } else if(base==0) base= *p=='0'?8:10;
  const char*st=p; unsigned long v=0; int ov=0; for(int d;(d=dig(*p))<base;++p){ if((unsigned)(v>ULONG_MAX/base)|((unsigned)(v==ULONG_MAX/base)&(unsigned)((unsigned long)d>ULONG_MAX%base))) ov=1; else v=v*base+d; }
  if(e) *e=(char*)(p==st?s:p); if(ov) return ULONG_MAX; return neg?0-v:v; }
long symxlib_strtol(const char*s,char**e,int base){ long tv; if(symx_numtok&&symx_numtok(s,&tv)){ if(e) *e=(char*)s+symxlib_strlen(s); return tv; }
  const char*p=s; while(symxlib_isspace((unsigned char)*p)) ++p; int neg=0; if(*p=='-'){neg=1;++p;} else if(*p=='+') ++p;
  if((base==0||base==16)&&p[0]=='0'&&(p[1]=='x'||p[1]=='X')&&dig(p[2])<16){ p+=2; base=16; } else if(base==0) base= *p=='0'?8:10;
  const char*st=p; unsigned long v=0,lim=neg?(unsigned long)LONG_MAX+1:(unsigned long)LONG_MAX; int ov=0; for(int d;(d=dig(*p))<base;++p){ if(ov) continue; if((unsigned)(v>lim/base)|((unsigned)(v==lim/base)&(unsigned)((unsigned long)d>lim%base))) ov=1; else v=v*base+d; }
  if(e) *e=(char*)(p==st?s:p); if(ov) return neg?LONG_MIN:LONG_MAX; return neg?(long)(0-v):(long)v; }
long long symxlib_strtoll(const char*s,char**e,int base){ return symxlib_strtol(s,e,base); }
int symxlib_atoi(const char*s){ return (int)symxlib_strtol(s,0,10); }
long symxlib_atol(const char*s){ return symxlib_strtol(s,0,10); }

int symxlib_strncasecmp(const char*a,const char*b,size_t n){ for(size_t i=0;i<n;++i){ int x=symxlib_tolower((unsigned char)a[i]),y=symxlib_tolower((unsigned char)b[i]); if(x!=y) return x<y?-1:1; if(!x) return 0; } return 0; }
size_t symxlib_strnlen(const char*s,size_t m){ size_t n=0; while(n<m&&s[n]) ++n; return n; }
char* symxlib_strncat(char*d,const char*s,size_t n){ size_t l=symxlib_strlen(d),i=0; for(;i<n&&s[i];++i) d[l+i]=s[i]; d[l+i]=0; return d; }
char* symxlib_stpcpy(char*d,const char*s){ while((*d=*s)){++d;++s;} return d; }
void* malloc(size_t);
char* symxlib_strdup(const char*s){ size_t n=symxlib_strlen(s); char*d=malloc(n+1); if(d) for(size_t i=0;i<=n;++i) d[i]=s[i]; return d; }
void* symxlib_memrchr(const void*s,int c,size_t n){ const unsigned char*x=s; while(n-->0) if(x[n]==(unsigned char)c) return (void*)(x+n); return 0; }
int symxlib_isblank(int c){ return (c==32)|(c==9); }
int symxlib_iscntrl(int c){ return ((unsigned)c<32u)|(c==127); }
long long symxlib_atoll(const char*s){ return symxlib_strtol(s,0,10); }
unsigned long long symxlib_strtoull(const char*s,char**e,int b){ return symxlib_strtoul(s,e,b); }
long long symxlib_llabs(long long x){ return x<0?-x:x; }
