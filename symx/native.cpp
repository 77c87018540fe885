// Native implementation of the harness API: runs the uninstrumented code on given inputs.
#include "symx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <map>
#include <set>
#include <vector>
#include <fstream>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <time.h>
#include <sys/wait.h>
static std::map<std::string,uint64_t> asg; static uint64_t obs=1469598103934665603ull; static int fd=-1; static int th=0; static std::set<std::string> seen;
static void w(const std::string& s){ size_t i=0; while(i<s.size()){ ssize_t k=write(fd,s.data()+i,s.size()-i); if(k<=0) _exit(9); i+=k; } }
extern "C" {
uint64_t symx_input(const char* n,unsigned wd){ auto it=asg.find(n); uint64_t v= it==asg.end()?0:it->second; return wd>=64?v:v&((1ull<<wd)-1); }
void symx_assume(int c){ if(!c){ w("S assume\n"); _exit(0);} }
void symx_assert(int c,const char* l){ if(!c&&seen.insert(l).second) w(std::string("F ")+l+"\n"); }
void symx_observe(uint64_t v){ obs=(obs^v)*1099511628211ull; obs^=obs>>29; }
int symx_symbolic(uint64_t){ return 0; }
uint64_t symx_pin(uint64_t v){ return v; }
void symx_reached(const char*){}
void symx_known(const char* id,int v,const char*){ if(v&&seen.insert(std::string("K")+id).second) w(std::string("K ")+id+"\n"); }
int symx_thorough(void){ return th; }
int symx_native(void){ return 1; }
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
// input: one assignment per line; output: per line "status|obs|labels(tab separated)"
int symx_replay(const char* in,const char* out,void(*body)(),int t){
  th=t; std::ifstream f(in); std::string line; FILE* o=fopen(out,"w"); if(!o) return 2; 
  std::vector<std::string> lines; while(std::getline(f,line)) lines.push_back(line);
  struct R{ pid_t pid; int fd; std::string buf; double t0; }; std::vector<std::string> res(lines.size()); std::map<size_t,R> run; size_t next=0; int jobs=8; fflush(stdout);
  std::string base=out;
  while(next<lines.size()||!run.empty()){
    while(next<lines.size()&&(int)run.size()<jobs){ int p[2]; if(pipe(p)) return 2; pid_t pid=fork();
      if(pid==0){ close(p[0]); fd=p[1]; std::string e=base+".err."+std::to_string(next); int d=open(e.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644); dup2(d,1); dup2(d,2);
        const std::string& s=lines[next]; size_t i=0; while(i<s.size()){ size_t x=s.find(';',i); if(x==std::string::npos) x=s.size(); size_t q=s.rfind('=',x); asg[s.substr(i,q-i)]=strtoull(s.substr(q+1,x-q-1).c_str(),0,16); i=x+1; }
        body(); char b[64]; snprintf(b,64,"S ok %llx\n",(unsigned long long)obs); w(b); _exit(0); }
      close(p[1]); run[next]={pid,p[0],"",now()}; ++next; }
    std::vector<pollfd> pf; std::vector<size_t> ix; for(auto& r:run){ pf.push_back({r.second.fd,POLLIN,0}); ix.push_back(r.first); }
    poll(pf.data(),pf.size(),200);
    for(size_t k=0;k<pf.size();++k){ R& r=run[ix[k]]; bool eof=false; if(pf[k].revents){ char b[4096]; ssize_t n=read(r.fd,b,sizeof b); if(n>0) r.buf.append(b,n); else eof=true; }
      bool to=now()-r.t0>30; if(eof||to){ if(to&&!eof) kill(r.pid,SIGKILL); int st; waitpid(r.pid,&st,0); close(r.fd);
        std::string status="crash",ob="-",labels; size_t i=0; const std::string& s=r.buf; while(i<s.size()){ size_t e=s.find('\n',i); if(e==std::string::npos) e=s.size(); std::string l=s.substr(i,e-i); i=e+1;
          if(l.compare(0,5,"S ok ")==0){ status="ok"; ob=l.substr(5);} else if(l=="S assume") status="assume"; else if(l[0]=='F') labels+=(labels.empty()?"":"\t")+l.substr(2); else if(l[0]=='K') labels+=(labels.empty()?"":"\t")+std::string("KNOWN:")+l.substr(2); }
        if(to&&!eof) status="timeout"; else if(status=="crash"){ char b[64]; snprintf(b,64,"crash(%s %d)",WIFSIGNALED(st)?"signal":"exit",WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st)); status=b; }
        else if(WIFEXITED(st)&&WEXITSTATUS(st)!=0){ char b[64]; snprintf(b,64,"crash(exit %d)",WEXITSTATUS(st)); status=b; }
        if(status=="ok"||status=="assume") unlink((base+".err."+std::to_string(ix[k])).c_str());
        res[ix[k]]=status+"|"+ob+"|"+labels; run.erase(ix[k]); } }
  }
  for(auto& r:res) fprintf(o,"%s\n",r.c_str()); fclose(o); return 0; }
}
