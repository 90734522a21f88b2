// Native replay runtime: the same harness, compiled by g++ against the real headers, fed with recorded inputs.
#include "../include/harness.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <fstream>
#include <iostream>
#include <exception>
#include <unistd.h>
static std::map<std::string, void(*)()>& tab(){ static std::map<std::string, void(*)()> t; return t; }
SymReg::SymReg(const char* n, void (*f)()){ tab()[n]=f; }
struct In { bool d; double dv; long long iv; unsigned long long uv; std::string name; };
static std::vector<In> ins; static size_t pos=0; static std::map<std::string,uint64_t> params; static FILE* obsF=nullptr; static FILE* msgF=nullptr;
static void die(int rc, const char* tag, const char* m){ fprintf(msgF,"%s %s\n",tag,m); fflush(msgF); if(obsF) fflush(obsF); _exit(rc); }
static In& next(const char* n){ if(pos>=ins.size()) die(5,"DIVERGED more inputs requested:",n); In& i=ins[pos++]; if(i.name!=n) die(5,"DIVERGED input name",n); return i; }
extern "C" {
uint64_t sym_u64(const char* n,uint64_t lo,uint64_t hi){ In& i=next(n); if(i.uv<lo||i.uv>hi) die(5,"DIVERGED range",n); return i.uv; }
int64_t sym_i64(const char* n,int64_t lo,int64_t hi){ In& i=next(n); if(i.iv<lo||i.iv>hi) die(5,"DIVERGED range",n); return i.iv; }
double sym_num(const char* n,int64_t lo,int64_t hi,int64_t den){ In& i=next(n); return i.d?i.dv:(double)i.iv; }
uint64_t sym_choice(const char* n,uint64_t k){ In& i=next(n); if(i.uv>=k) die(5,"DIVERGED range",n); return i.uv; }
void sym_assume(int c){ if(!c) die(4,"ASSUME","false"); }
void sym_assert_(int c,const char* m){ if(!c) die(3,"ASSERT",m); }
void sym_fail_(const char* m){ die(3,"ASSERT",m); }
double sym_ite_d(int c,double a,double b){ return c?a:b; }
uint64_t sym_ite_u(int c,uint64_t a,uint64_t b){ return c?a:b; }
void sym_obs_d(double v){ if(obsF) fprintf(obsF,"d %.17g\n",v); }
void sym_obs_u(uint64_t v){ if(obsF) fprintf(obsF,"u %llu\n",(unsigned long long)v); }
uint64_t sym_param(const char* n,uint64_t d){ auto it=params.find(n); return it==params.end()?d:it->second; }
void sym_reach(const char*){} void sym_stop(void){ die(0,"STOP",""); } void sym_discard(void){ die(4,"DISCARD",""); }
int sym_is_symbolic_run(void){ return 0; } void sym_select_merge(uint64_t){} uint64_t sym_concretize_u(uint64_t v){ return v; }
uint64_t sym_dbl_to_str(char* b,double v,uint64_t p){ return snprintf(b,64,"%.*g",(int)p,v); }
uint64_t sym_u64_to_str(char* b,uint64_t v){ return snprintf(b,32,"%llu",(unsigned long long)v); }
static uint64_t rng=1;
int rand(void) noexcept { rng=rng*6364136223846793005ULL+1442695040888963407ULL; return (int)((rng>>33)&0x7fffffff); }
void srand(unsigned s) noexcept { rng=(uint64_t)s*2+1; }
long random(void) noexcept { return rand(); }
}
int main(int argc,char** argv){ // entry inputfile obsfile k=v...
  msgF=fdopen(dup(2),"w"); if(argc<4) return 64; std::ifstream f(argv[2]); std::string line;
  while(std::getline(f,line)){ if(line.empty()||line[0]=='#') continue; In i; i.d=line[0]=='d'; std::string v=line.substr(2); size_t h=v.find(" # "); i.name=h==std::string::npos?"":v.substr(h+3); v=v.substr(0,h); i.dv=strtod(v.c_str(),0); i.iv=strtoll(v.c_str(),0,10); i.uv=v[0]=='-'?(unsigned long long)i.iv:strtoull(v.c_str(),0,10); ins.push_back(i); }
  if(strcmp(argv[3],"-")) obsF=fopen(argv[3],"w");
  for(int k=4;k<argc;k++){ std::string p=argv[k]; size_t e=p.find('='); params[p.substr(0,e)]=strtoll(p.substr(e+1).c_str(),0,10); }
  auto it=tab().find(argv[1]); if(it==tab().end()){ fprintf(stderr,"no entry\n"); return 64; }
  FILE* nul=freopen("/dev/null","w",stdout); (void)nul;
  try { it->second(); } catch(std::exception& e){ die(6,"EXC",e.what()); } catch(...){ die(6,"EXC","unknown"); }
  if(obsF) fclose(obsF); fflush(stdout); _exit(0); }
