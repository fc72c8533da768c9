// Native (uninstrumented) side of the harness API: inputs come from a file of
// numbers, in the order the symbolic run created its variables.
#include "vsym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <signal.h>
#include <vector>
#include <exception>
#include <typeinfo>
static std::vector<uint64_t> in; static size_t pos=0; static int allow=0;
static uint64_t next(uint64_t d){ if(pos<in.size())return in[pos++]; pos++; return d; }
extern "C" {
int64_t vs_int(const char*,int64_t lo,int64_t hi){ if(lo==hi)return lo; uint64_t span=(uint64_t)hi-(uint64_t)lo; int w=1;while(w<64&&span>>w)w++;
  uint64_t d=(lo<=0&&hi>=0)?(uint64_t)-lo:0; uint64_t v=next(d); if(w<64)v&=(1ULL<<w)-1; if(v>span)v=span; return (int64_t)((uint64_t)lo+v);}
uint64_t vs_uint(const char*,uint64_t lo,uint64_t hi){ if(lo==hi)return lo; uint64_t span=hi-lo;int w=1;while(w<64&&span>>w)w++; uint64_t v=next(0); if(w<64)v&=(1ULL<<w)-1; if(v>span)v=span; return lo+v;}
double vs_fix(const char*n,int64_t lo,int64_t hi,int sc){return ldexp((double)vs_int(n,lo,hi),-sc);}
double vs_double(const char*){uint64_t v=next(0);double d;memcpy(&d,&v,8);return d;}
float vs_float(const char*){uint32_t v=(uint32_t)next(0);float d;memcpy(&d,&v,4);return d;}
void vs_bytes(const char*,void*p,size_t n){for(size_t i=0;i<n;i++)((uint8_t*)p)[i]=(uint8_t)next(0);}
int64_t vs_concrete(int64_t v){return v;}
int vs_choice(const char*n,int k){return (int)vs_int(n,0,k-1);}
static void end(const char*h,int rc){fprintf(stdout,"VS-END %s\n",h);fflush(stdout);_exit(rc);}
void vs_assume(int c){if(!c)end("assume",0);}
void vs_fail(const char*m){fprintf(stdout,"VS-VIOLATION assert %s\n",m);end("violation",1);}
void vs_assert_(int c,const char*m){if(!c)vs_fail(m);}
void vs_reach(const char*){}
void vs_allow_abort(int on){allow=on;}
int vs_is_symbolic(void){return 0;}
void vs_stop(void){end("stop",0);}
void vs_note(const char*k,int64_t v){fprintf(stdout,"note %s %lld\n",k,(long long)v);}
}
static void onsig(int s){ if(s==SIGABRT&&allow)_exit(0); const char*m=s==SIGABRT?"VS-VIOLATION crash abort\n":s==SIGSEGV?"VS-VIOLATION crash segmentation fault\n":"VS-VIOLATION crash signal\n"; if(write(1,m,strlen(m))){} _exit(1);}
int main(int argc,char**argv){
  for(int i=1;i<argc;i++)in.push_back(strtoull(argv[i],0,10));
  int sg[]={SIGABRT,SIGSEGV,SIGFPE,SIGBUS,SIGILL};for(int s:sg)signal(s,onsig);
  if(vs_setup)vs_setup();
  try{vs_harness();}catch(std::exception&e){ if(!allow){fprintf(stdout,"VS-VIOLATION crash uncaught exception %s\n",e.what());end("violation",1);} }
  catch(...){ if(!allow){fprintf(stdout,"VS-VIOLATION crash uncaught exception\n");end("violation",1);} }
  end("done",0);
}
