// Driver shared by the symbolic and the native build of a harness.
#include "symx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <exception>
SymxScenario* symx_scenarios=0;
SymxScenario::SymxScenario(const char* n,void(*b)(),void(*s)()):name(n),body(b),setup(s),next(symx_scenarios){ symx_scenarios=this; }
static SymxScenario* cur;
extern "C" int symx_explore(const char* scen,void(*body)(),const char* outFile,double budget,int jobs,double pathTimeout,uint64_t maxPaths,int thorough);
extern "C" int symx_replay(const char* in,const char* out,void(*body)(),int thorough);
static void runBody(){
  try { cur->body(); } catch(std::exception& e){ symx_assert(0,"uncaught std::exception"); } catch(...){ symx_assert(0,"uncaught exception"); }
}
int main(int argc,char**argv){
  const char* scen=0,*out=0,*rep=0; double budget=600,pt=60; int jobs=8,th=0; uint64_t mp=1000000000ull;
  for(int i=1;i<argc;++i){ if(!strcmp(argv[i],"--scenario")) scen=argv[++i]; else if(!strcmp(argv[i],"--out")) out=argv[++i]; else if(!strcmp(argv[i],"--replay")) rep=argv[++i];
    else if(!strcmp(argv[i],"--budget")) budget=atof(argv[++i]); else if(!strcmp(argv[i],"--jobs")) jobs=atoi(argv[++i]); else if(!strcmp(argv[i],"--path-timeout")) pt=atof(argv[++i]); else if(!strcmp(argv[i],"--max-paths")) mp=strtoull(argv[++i],0,10);
    else if(!strcmp(argv[i],"--thorough")) th=1;
    else if(!strcmp(argv[i],"--list")){ for(SymxScenario* s=symx_scenarios;s;s=s->next) printf("%s\n",s->name); return 0; } }
  for(SymxScenario* s=symx_scenarios;s;s=s->next) if(scen&&!strcmp(s->name,scen)) cur=s;
  if(!cur){ fprintf(stderr,"no scenario\n"); return 2; }
  if(cur->setup) cur->setup();
#ifdef SYMX_NATIVE
  (void)budget;(void)pt;(void)jobs;(void)mp;
  return symx_replay(rep,out,runBody,th);
#else
  (void)rep;
  return symx_explore(scen,runBody,out,budget,jobs,pt,mp,th);
#endif
}
