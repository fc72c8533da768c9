// vsym runtime: expression DAG, shadow memory, SMT queries, path scheduler.
// Uninstrumented. One process per path (fork); the parent schedules inputs.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <z3.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <math.h>
#include <fcntl.h>
#include <poll.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <sys/syscall.h>
#include <unistd.h>
#include "ops.h"
#include "vsym.h"
typedef unsigned __int128 u128; typedef __int128 i128; typedef uint64_t u64; typedef int64_t i64; typedef uint8_t u8;

static int in_rt=0;           // runtime code running: allocations go to libc
static int active=0;          // symbolic execution on
struct RTGuard{RTGuard(){in_rt++;}~RTGuard(){in_rt--;}};
#define ENTER RTGuard _g

// ---------------------------------------------------------------- allocator
// Program allocations come from a deterministic arena that never reuses memory,
// with red zones, so heap overruns and uses after free are seen.
extern "C" void*__libc_malloc(size_t);extern "C" void __libc_free(void*);extern "C" void*__libc_realloc(void*,size_t);extern "C" void*__libc_calloc(size_t,size_t);extern "C" void*__libc_memalign(size_t,size_t);
static const u64 ARENA=0x200000000000ULL,ARENA_SZ=8ULL<<30,ASTATE=0x210000000000ULL;
static u64 abump=0;static int ainit=0;
static void shadow_clear(u64 a,u64 n);
static void arena_init(){
  void*p=mmap((void*)ARENA,ARENA_SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0);
  void*q=mmap((void*)ASTATE,ARENA_SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0);
  if(p!=(void*)ARENA||q!=(void*)ASTATE){static const char m[]="vsym: arena mmap failed\n";if(write(2,m,sizeof m)){}_exit(99);}
  abump=64;ainit=1;
}
static inline bool in_arena(u64 a){return a>=ARENA&&a<ARENA+ARENA_SZ;}
static void*aalloc(size_t n,size_t al){
  if(!ainit)arena_init();
  if(n>(4ULL<<30)){errno=ENOMEM;return nullptr;}
  u64 a=(ARENA+abump+16+al-1)/al*al;
  if(a+n+32>ARENA+ARENA_SZ){errno=ENOMEM;return nullptr;}
  ((u64*)a)[-1]=n;
  memset((void*)(a-ARENA+ASTATE),1,n);
  abump=a+n+16-ARENA;
  return (void*)a;
}
static void report_violation(const char*kind,const char*msg);
static inline size_t asize(void*p){return ((u64*)p)[-1];}
// allocations of the solver's own threads never touch the arena
static __thread int tl_kind=0;
static inline bool side_thread(){if(!tl_kind){tl_kind=syscall(SYS_gettid)==getpid()?1:2;}return tl_kind==2;}
extern "C" {
void*malloc(size_t n){ if(in_rt||side_thread())return __libc_malloc(n); return aalloc(n,16);}
void free(void*p){
  if(!p)return; u64 a=(u64)p;
  if(!in_arena(a)){__libc_free(p);return;}
  u8*st=(u8*)(a-ARENA+ASTATE);size_t n=asize(p);
  if(active&&!in_rt&&n&&st[0]!=1){report_violation("memory",st[0]==2?"double free":"invalid free");}
  memset(st,2,n);
}
void*calloc(size_t a,size_t b){ if(in_rt||side_thread())return __libc_calloc(a,b); void*p=aalloc(a*b,16); return p; } // arena is zeroed, never reused
void*realloc(void*p,size_t n){
  if(!p)return malloc(n);
  if(!in_arena((u64)p))return __libc_realloc(p,n);
  void*q=malloc(n);size_t o=asize(p);size_t m=o<n?o:n;memcpy(q,p,m);
  extern void vs_shadow_copy(void*,void*,size_t); if(active)vs_shadow_copy(q,p,m);
  free(p);return q;}
void*memalign(size_t al,size_t n){if(in_rt||side_thread())return __libc_memalign(al,n);return aalloc(n,al<16?16:al);}
void*aligned_alloc(size_t al,size_t n){return memalign(al,n);}
int posix_memalign(void**p,size_t al,size_t n){*p=memalign(al,n);return *p?0:ENOMEM;}
size_t malloc_usable_size(void*p){if(!p)return 0;if(in_arena((u64)p))return asize(p);return 0;}
}

// ---------------------------------------------------------------- expressions
struct Expr{
  u8 op;u8 fp;           // fp: 0 bitvector, else 32/64 (FP sort)
  uint16_t w;u8 pinned;u8 z3set;u8 hasmul;
  uint32_t id;
  Expr*a,*b,*c;u64 aux;
  u128 val;              // value under the current input
  u64 ulo,uhi;i64 slo,shi;// ranges (w<=64 bitvectors)
  Expr*dn;int dsc;       // exact dyadic view: dn * 2^-dsc
  Z3_ast z;u64 h;Expr*next;
  std::vector<std::pair<i64,u64>>*tab;
};
static Expr**htab;static u64 hmask;static uint32_t nexprs;
static char*xbump,*xend;
static Expr*xalloc(){
  if(xbump+sizeof(Expr)>xend){size_t sz=8<<20;xbump=(char*)mmap(0,sz,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);xend=xbump+sz;}
  Expr*e=(Expr*)xbump;xbump+=(sizeof(Expr)+15)/16*16;return e;
}
static inline u128 mask(unsigned w){return w>=128?~(u128)0:(((u128)1<<w)-1);}
static inline i128 sx(u128 v,unsigned w){if(w>=128)return (i128)v;u128 s=(u128)1<<(w-1);v&=mask(w);return (i128)((v^s)-s);}
static void engine_error(const char*m);
static Expr*mk(int op,int w,Expr*a,Expr*b=nullptr,Expr*c=nullptr,u64 aux=0,int fp=0);
static Expr*mkfp(int op,int w,Expr*a,Expr*b=nullptr,u64 aux=0){return mk(op,w,a,b,nullptr,aux,w);}
static Expr*cst(u128 v,int w);
static Expr*fcst(u64 bits,int w);
static inline double asd(u64 b){double d;memcpy(&d,&b,8);return d;}
static inline float asf(u64 b){uint32_t x=(uint32_t)b;float d;memcpy(&d,&x,4);return d;}
static inline u64 bd(double d){u64 b;memcpy(&b,&d,8);return b;}
static inline u64 bf(float d){uint32_t b;memcpy(&b,&d,4);return b;}
static inline bool isc(Expr*e){return e->op==OP_CONST;}

static double fun1(int op,double x){
  switch(op){case OP_LOG:return log(x);case OP_EXP:return exp(x);case OP_LOG2:return log2(x);case OP_LOG10:return log10(x);case OP_EXP2:return exp2(x);case OP_LOG1P:return log1p(x);case OP_EXPM1:return expm1(x);
   case OP_LGAMMA:return lgamma(x);case OP_TGAMMA:return tgamma(x);case OP_SIN:return sin(x);case OP_COS:return cos(x);case OP_TANH:return tanh(x);
   case OP_FSQRT:return sqrt(x);case OP_FFLOOR:return floor(x);case OP_FCEIL:return ceil(x);case OP_FTRUNC:return trunc(x);case OP_FRINT:return rint(x);case OP_FROUND:return round(x);case OP_FABS:return fabs(x);case OP_FNEG:return -x;}
  return 0;
}
static float fun1f(int op,float x){
  switch(op){case OP_LOG:return logf(x);case OP_EXP:return expf(x);case OP_LOG2:return log2f(x);case OP_LOG10:return log10f(x);case OP_EXP2:return exp2f(x);case OP_LOG1P:return log1pf(x);case OP_EXPM1:return expm1f(x);
   case OP_LGAMMA:return lgammaf(x);case OP_TGAMMA:return tgammaf(x);case OP_SIN:return sinf(x);case OP_COS:return cosf(x);case OP_TANH:return tanhf(x);
   case OP_FSQRT:return sqrtf(x);case OP_FFLOOR:return floorf(x);case OP_FCEIL:return ceilf(x);case OP_FTRUNC:return truncf(x);case OP_FRINT:return rintf(x);case OP_FROUND:return roundf(x);case OP_FABS:return fabsf(x);case OP_FNEG:return -x;}
  return 0;
}
static bool transc(int op){return op>=OP_LOG&&op<=OP_ATAN2;}
template<class T>static T fbin(int op,T a,T b){
  switch(op){case OP_FADD:return a+b;case OP_FSUB:return a-b;case OP_FMUL:return a*b;case OP_FDIV:return a/b;case OP_FREM:return fmod(a,b);case OP_FMIN:return fmin(a,b);case OP_FMAX:return fmax(a,b);case OP_FCOPYSIGN:return copysign(a,b);case OP_POW:return pow(a,b);case OP_ATAN2:return atan2(a,b);}
  return 0;
}
template<class T>static bool fcmp(int p,T a,T b){
  bool un=a!=a||b!=b;
  switch(p){case 0:return false;case 1:return a==b;case 2:return a>b;case 3:return a>=b;case 4:return a<b;case 5:return a<=b;case 6:return !un&&a!=b;case 7:return !un;
   case 8:return un;case 9:return un||a==b;case 10:return un||a>b;case 11:return un||a>=b;case 12:return un||a<b;case 13:return un||a<=b;case 14:return un||a!=b;}
  return true;
}
// concrete evaluation of one node from its children's values
static u128 evalop(int op,int w,Expr*A,Expr*B,Expr*C,u64 aux,std::vector<std::pair<i64,u64>>*tab=nullptr){
  u128 a=A?A->val:0,b=B?B->val:0,m=mask(w);int aw=A?A->w:w;
  switch(op){
    case OP_ADD:return (a+b)&m;case OP_SUB:return (a-b)&m;case OP_MUL:return (a*b)&m;
    case OP_UDIV:return b?(a/b)&m:m;case OP_UREM:return b?(a%b)&m:a;
    case OP_SDIV:{i128 x=sx(a,w),y=sx(b,w);if(!y)return x<0?1:m;if(y==-1)return (u128)(-x)&m;return (u128)(x/y)&m;}
    case OP_SREM:{i128 x=sx(a,w),y=sx(b,w);if(!y)return a;if(y==-1)return 0;return (u128)(x%y)&m;}
    case OP_AND:return a&b;case OP_OR:return a|b;case OP_XOR:return a^b;
    case OP_SHL:return b>=(u128)w?0:(a<<(unsigned)b)&m;case OP_LSHR:return b>=(u128)w?0:(a>>(unsigned)b);
    case OP_ASHR:{unsigned s=b>=(u128)w?w-1:(unsigned)b;return (u128)(sx(a,w)>>s)&m;}
    case OP_EQ:return a==b;case OP_ULT:return a<b;case OP_ULE:return a<=b;case OP_SLT:return sx(a,aw)<sx(b,aw);case OP_SLE:return sx(a,aw)<=sx(b,aw);
    case OP_CONCAT:return (a<<B->w)|b;
    case OP_EXTRACT:return (a>>aux)&m;
    case OP_ZEXT:return a;case OP_SEXT:return (u128)sx(a,aw)&m;
    case OP_ITE:return a?b:C->val;
    case OP_FADD:case OP_FSUB:case OP_FMUL:case OP_FDIV:case OP_FREM:case OP_FMIN:case OP_FMAX:case OP_FCOPYSIGN:case OP_POW:case OP_ATAN2:
      return w==64?(u128)bd(fbin<double>(op,asd(a),asd(b))):(u128)bf(fbin<float>(op,asf(a),asf(b)));
    case OP_FNEG:return a^((u128)1<<(w-1));
    case OP_FABS:return a&~((u128)1<<(w-1));
    case OP_FPCONV:return w==64?(u128)bd((double)asf(a)):(u128)bf((float)asd(a));
    case OP_FPTOSI:{double d=aw==64?asd(a):(double)asf(a);return (u128)(i128)(i64)d&m;}
    case OP_FPTOUI:{double d=aw==64?asd(a):(double)asf(a);return (u128)(d<9223372036854775808.0?(u64)(i64)d:(u64)d)&m;}
    case OP_SITOFP:{i64 x=(i64)sx(a,aw);return w==64?(u128)bd((double)x):(u128)bf((float)x);}
    case OP_UITOFP:{u64 x=(u64)a;return w==64?(u128)bd((double)x):(u128)bf((float)x);}
    case OP_FBITS:case OP_FFROM:return a;
    case OP_FDY:{i64 x=(i64)sx(a,aw);double d=ldexp((double)x,-(int)aux);return w==64?(u128)bd(d):(u128)bf((float)d);}
    case OP_FTABLE:{i64 x=(i64)sx(a,aw);for(auto&p:*tab)if(p.first==x)return p.second;return tab->back().second;}
  }
  if(op>=OP_FCMP)return aw==64?fcmp<double>(op-OP_FCMP,asd(a),asd(b)):fcmp<float>(op-OP_FCMP,asf(a),asf(b));
  if(op>=OP_FADD)return w==64?(u128)bd(fun1(op,asd(a))):(u128)bf(fun1f(op,asf(a)));
  engine_error("evalop");return 0;
}
static void setrange(Expr*e){
  unsigned w=e->w;
  if(e->fp||w>64){e->ulo=0;e->uhi=~0ULL;e->slo=INT64_MIN;e->shi=INT64_MAX;return;}
  u64 um=(u64)mask(w);i64 smin=w==64?INT64_MIN:-(i64)(1ULL<<(w-1)),smax=w==64?INT64_MAX:(i64)((1ULL<<(w-1))-1);
  if(w==1){smin=-1;smax=0;}
  u64 ul=0,uh=um;i64 sl=smin,sh=smax;
  Expr*a=e->a,*b=e->b,*c=e->c;
  bool ok=(!a||(a->w<=64&&!a->fp))&&(!b||(b->w<=64&&!b->fp))&&(!c||(c->w<=64&&!c->fp));
  if(e->op==OP_CONST){ul=uh=(u64)e->val;sl=sh=(i64)sx(e->val,w);}
  else if(ok)switch(e->op){
    case OP_ADD:{u128 l=(u128)a->ulo+b->ulo,h=(u128)a->uhi+b->uhi;if(h<=um){ul=l;uh=h;}else if(l>um&&h<=(u128)um*2+1){ul=(u64)(l&um);uh=(u64)(h&um);}
      i128 sl1=(i128)a->slo+b->slo,sh1=(i128)a->shi+b->shi;if(sl1>=smin&&sh1<=smax){sl=sl1;sh=sh1;}break;}
    case OP_SUB:{i128 sl1=(i128)a->slo-b->shi,sh1=(i128)a->shi-b->slo;if(sl1>=smin&&sh1<=smax){sl=sl1;sh=sh1;}
      if(a->ulo>=b->uhi){ul=a->ulo-b->uhi;uh=a->uhi-b->ulo;}break;}
    case OP_MUL:{u128 h=(u128)a->uhi*b->uhi;if(h<=um){ul=a->ulo*b->ulo;uh=(u64)h;}
      i128 p[4]={(i128)a->slo*b->slo,(i128)a->slo*b->shi,(i128)a->shi*b->slo,(i128)a->shi*b->shi};i128 mn=p[0],mx=p[0];for(auto x:p){if(x<mn)mn=x;if(x>mx)mx=x;}
      if(mn>=smin&&mx<=smax){sl=mn;sh=mx;}break;}
    case OP_UDIV:if(b->ulo>0){ul=a->ulo/b->uhi;uh=a->uhi/b->ulo;}break;
    case OP_UREM:if(b->ulo>0){uh=std::min(a->uhi,b->uhi-1);}break;
    case OP_SDIV:if(b->slo==b->shi&&b->slo>0){sl=a->slo/b->slo;sh=a->shi/b->slo;}break;
    case OP_SREM:if(b->slo==b->shi&&b->slo>0){sl=a->slo<0?-(b->slo-1):0;sh=a->shi>0?b->slo-1:0;}break;
    case OP_AND:uh=std::min(a->uhi,b->uhi);break;
    case OP_OR:case OP_XOR:{u64 m=a->uhi|b->uhi;unsigned k=m?64-__builtin_clzll(m):0;u64 mm=k>=64?~0ULL:((1ULL<<k)-1);uh=std::min(um,mm);if(e->op==OP_OR)ul=std::max(a->ulo,b->ulo);break;}
    case OP_SHL:if(isc(b)&&b->val<w){unsigned k=(unsigned)b->val;u128 h=(u128)a->uhi<<k;if(h<=um){ul=a->ulo<<k;uh=(u64)h;}
      i128 l1=(i128)a->slo<<k,h1=(i128)a->shi<<k;if(l1>=smin&&h1<=smax){sl=l1;sh=h1;}}break;
    case OP_LSHR:if(isc(b)&&b->val<w){unsigned k=(unsigned)b->val;ul=a->ulo>>k;uh=a->uhi>>k;}else uh=a->uhi;break;
    case OP_ASHR:if(isc(b)&&b->val<w){unsigned k=(unsigned)b->val;sl=a->slo>>k;sh=a->shi>>k;}break;
    case OP_CONCAT:{ul=(a->ulo<<b->w)|0;uh=(a->uhi<<b->w)|(u64)mask(b->w);if(b->w>=64){ul=0;uh=um;}else{ul|=b->ulo;if(a->ulo==a->uhi)uh=(a->uhi<<b->w)|b->uhi;}break;}
    case OP_EXTRACT:if(e->aux==0&&a->uhi<=um){ul=a->ulo;uh=a->uhi;}if(e->aux==0&&a->slo>=smin&&a->shi<=smax){sl=a->slo;sh=a->shi;}
      if(e->aux>0&&a->w==w+e->aux){ul=a->ulo>>e->aux;uh=a->uhi>>e->aux;}break;
    case OP_ZEXT:ul=a->ulo;uh=a->uhi;break;
    case OP_SEXT:sl=a->slo;sh=a->shi;break;
    case OP_ITE:ul=std::min(b->ulo,c->ulo);uh=std::max(b->uhi,c->uhi);sl=std::min(b->slo,c->slo);sh=std::max(b->shi,c->shi);break;
    default:break;
  }
  // reconcile
  if(uh<=(u64)smax){sl=std::max(sl,(i64)ul);sh=std::min(sh,(i64)uh);}
  if(sl>=0){ul=std::max(ul,(u64)sl);uh=std::min(uh,(u64)sh);}
  else if(sh<0){ // all negative
    u64 l2=(u64)sl&um,h2=(u64)sh&um;ul=std::max(ul,l2);uh=std::min(uh,h2);}
  if(ul>smax+(u64)0&&w<64&&ul>(u64)smax){ // all have the sign bit
    sl=std::max(sl,(i64)sx(ul,w));sh=std::min(sh,(i64)sx(uh,w));}
  e->ulo=ul;e->uhi=uh;e->slo=sl;e->shi=sh;
}
static Expr*intern(int op,int w,Expr*a,Expr*b,Expr*c,u64 aux,int fp,u128 cv=0,std::vector<std::pair<i64,u64>>*tab=nullptr){
  u64 h=op*0x9E3779B97F4A7C15ULL+w*131+fp*7+aux*0xC2B2AE3D27D4EB4FULL+(u64)cv*0x165667B19E3779F9ULL+(u64)(cv>>64)*77;
  h^=(a?a->id:0)*0xff51afd7ed558ccdULL;h=(h<<13|h>>51)*5+(b?b->id:0)*0xc4ceb9fe1a85ec53ULL;h=(h<<17|h>>47)*5+(c?c->id:0)*0x94D049BB133111EBULL;h^=h>>29;
  if(!htab){hmask=(1<<16)-1;htab=(Expr**)mmap(0,(hmask+1)*8,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);}
  if(!tab)for(Expr*e=htab[h&hmask];e;e=e->next)if(e->h==h&&e->op==op&&e->w==w&&e->fp==fp&&e->a==a&&e->b==b&&e->c==c&&e->aux==aux&&(op!=OP_CONST||e->val==cv))return e;
  Expr*e=xalloc();e->op=op;e->w=w;e->fp=fp;e->a=a;e->b=b;e->c=c;e->aux=aux;e->id=++nexprs;e->h=h;e->tab=tab;
  e->val=op==OP_CONST?cv:op==OP_VAR?cv:evalop(op,w,a,b,c,aux,tab);
  e->next=htab[h&hmask];htab[h&hmask]=e;
  e->hasmul=!fp&&((op==OP_MUL&&a->op!=OP_CONST&&b->op!=OP_CONST)||((op==OP_ADD||op==OP_SUB||op==OP_MUL||op==OP_SHL||op==OP_SEXT||op==OP_ZEXT||op==OP_EXTRACT)&&((a&&a->hasmul)||(b&&b->hasmul))));
  setrange(e);
  return e;
}
static bool constview(u64 bits,int w,i64&n,int&sc){
  double d=w==64?asd(bits):(double)asf(bits);
  if(!std::isfinite(d))return false; // (views are exact up to the sign of zero)
  if(d==0){n=0;sc=0;return true;}
  int ex;double m=frexp(d,&ex);// d=m*2^ex
  i64 k=(i64)ldexp(m,53);int s=53-ex;
  while(!(k&1)&&k){k/=2;s--;}
  if(s<0){ if(-s>40)return false; int lim=40; if((k<0?-k:k)>=(1LL<<lim)||-s>20)return false; k<<=-s;s=0;}
  if(s>30||(k<0?-k:k)>=(1LL<<45))return false;
  n=k;sc=s;return true;
}
static Expr*cst(u128 v,int w){return intern(OP_CONST,w,0,0,0,0,0,v&mask(w));}
static Expr*fcst(u64 bits,int w){
  Expr*e=intern(OP_CONST,w,0,0,0,0,w,bits);
  if(!e->dn){i64 n;int s;if(constview(bits,w,n,s)){e->dn=cst((u128)(i128)n,64);e->dsc=s;}}
  return e;
}
static Expr*bnot(Expr*e){return mk(OP_XOR,1,e,cst(1,1));}
static Expr*resizeS(Expr*e,int w){ // signed resize
  if(e->w==w)return e;if(e->w<w)return mk(OP_SEXT,w,e);
  i64 lo=e->slo,hi=e->shi;Expr*r=mk(OP_EXTRACT,w,e,0,0,0);
  if(!isc(r)&&w<63&&lo>=-(1LL<<(w-1))&&hi<=(1LL<<(w-1))-1){if(r->slo<lo)r->slo=lo;if(r->shi>hi)r->shi=hi;} // the value fits: its range is kept
  return r;}
static Expr*narrowS(Expr*e){ // shrink to the bits its range needs
  int need=1;while(need<63&&!(e->slo>=-(1LL<<(need-1))&&e->shi<=(1LL<<(need-1))-1))need++;
  if(need<e->w)return resizeS(e,need);return e;
}
static int bitsfor(i128 lo,i128 hi){int need=1;while(need<100&&!(lo>=-((i128)1<<(need-1))&&hi<=((i128)1<<(need-1))-1))need++;return need;}
// signed integer arithmetic on views in a width where nothing overflows
static Expr*viadd(Expr*a,Expr*b,bool sub){
  i128 lo=(i128)a->slo+(sub?-(i128)b->shi:(i128)b->slo),hi=(i128)a->shi+(sub?-(i128)b->slo:(i128)b->shi);
  int w=bitsfor(lo,hi);w=std::max(w,std::max(std::min<int>(a->w,bitsfor(a->slo,a->shi)),std::min<int>(b->w,bitsfor(b->slo,b->shi))));for(Expr*x:{a,b})if(x->w>w&&x->w<=w+2&&x->w<=62)w=x->w;if(w>62)return nullptr;
  Expr*r=mk(sub?OP_SUB:OP_ADD,w,resizeS(a,w),resizeS(b,w));return r;
}
static Expr*vishl(Expr*a,int k){ if(!k)return a; i128 lo=(i128)a->slo<<k,hi=(i128)a->shi<<k;int w=bitsfor(lo,hi);w=std::max(w,(int)std::min<int>(a->w,62));if(w>62)return nullptr;return mk(OP_SHL,w,resizeS(a,w),cst(k,w)); }
static Expr*vimul(Expr*a,Expr*b){
  i128 p[4]={(i128)a->slo*b->slo,(i128)a->slo*b->shi,(i128)a->shi*b->slo,(i128)a->shi*b->shi};i128 lo=p[0],hi=p[0];for(auto x:p){if(x<lo)lo=x;if(x>hi)hi=x;}
  int w=std::max(bitsfor(lo,hi),std::max(bitsfor(a->slo,a->shi),bitsfor(b->slo,b->shi)));if(w>62)return nullptr;
  return mk(OP_MUL,w,resizeS(a,w),resizeS(b,w));
}
static Expr*viewexpr(Expr*n,int sc,int w){ return mkfp(OP_FDY,w,n,nullptr,(u64)sc); }
static bool viewfits(Expr*n,int w){i64 lim=w==64?(1LL<<53):(1LL<<24);return n->slo>=-lim&&n->shi<=lim;}
static void setview(Expr*e,Expr*n,int sc){
  if(!n||sc<0||sc>60)return;
  if(!viewfits(n,e->w))return;
  e->dn=n;e->dsc=sc;
}
static bool alignviews(Expr*a,Expr*b,Expr*&x,Expr*&y,int&sc){
  if(!a->dn||!b->dn)return false;sc=std::max(a->dsc,b->dsc);
  x=vishl(a->dn,sc-a->dsc);y=vishl(b->dn,sc-b->dsc);return x&&y;
}
static bool infnan(Expr*e){ if(!isc(e))return false;double d=e->w==64?asd(e->val):asf(e->val);return !std::isfinite(d);}
static bool hasspecial(Expr*e,int d=0){ if(d>6)return false; if(e->op==OP_ITE)return hasspecial(e->b,d+1)||hasspecial(e->c,d+1);return infnan(e);}
// ---------------------------------------------------------------- polynomial normal form
// P(e,W): a polynomial over atoms congruent to the signed value of e modulo 2^W.
typedef std::map<std::vector<Expr*>,u64>Poly;
static bool polyover;
static void padd(Poly&p,const std::vector<Expr*>&m,u64 c){ if(!c)return;u64&x=p[m];x+=c;if(!x)p.erase(m);if(p.size()>3000)polyover=true; }
static bool fitsS(i128 lo,i128 hi,int w){return w<64&&lo>=-((i128)1<<(w-1))&&hi<((i128)1<<(w-1));}
static const Poly&polyof(Expr*e,int W,std::map<std::pair<Expr*,int>,Poly>&memo){
  auto it=memo.find({e,W});if(it!=memo.end())return it->second;
  Poly r;Expr*a=e->a,*b=e->b;bool done=false;
  if(!polyover)switch(e->op){
    case OP_CONST:padd(r,{},(u64)(i64)sx(e->val,e->w));done=true;break;
    case OP_SEXT:r=polyof(a,W,memo);done=true;break;
    case OP_ZEXT:if(a->slo>=0){r=polyof(a,W,memo);done=true;}break;
    case OP_EXTRACT:if(e->aux==0&&(e->w>=W||(fitsS(a->slo,a->shi,e->w)))&&a->w<=64){r=polyof(a,W,memo);done=true;}break;
    case OP_ADD:case OP_SUB:{i128 lo=(i128)a->slo+(e->op==OP_ADD?(i128)b->slo:-(i128)b->shi),hi=(i128)a->shi+(e->op==OP_ADD?(i128)b->shi:-(i128)b->slo);
      if(e->w>=W||fitsS(lo,hi,e->w)){r=polyof(a,W,memo);const Poly&q=polyof(b,W,memo);for(auto&m:q)padd(r,m.first,e->op==OP_ADD?m.second:0-m.second);done=true;}break;}
    case OP_SHL:if(isc(b)&&b->val<e->w){unsigned k=(unsigned)b->val;if(e->w>=W||fitsS((i128)a->slo<<k,(i128)a->shi<<k,e->w)){const Poly&q=polyof(a,W,memo);for(auto&m:q)padd(r,m.first,m.second<<k);done=true;}}break;
    case OP_MUL:{i128 p[4]={(i128)a->slo*b->slo,(i128)a->slo*b->shi,(i128)a->shi*b->slo,(i128)a->shi*b->shi};i128 lo=p[0],hi=p[0];for(auto x:p){if(x<lo)lo=x;if(x>hi)hi=x;}
      if(e->w>=W||fitsS(lo,hi,e->w)){const Poly x=polyof(a,W,memo);const Poly&y=polyof(b,W,memo);
        if(x.size()*y.size()>20000)polyover=true;
        else for(auto&m:x)for(auto&n:y){std::vector<Expr*>v=m.first;v.insert(v.end(),n.first.begin(),n.first.end());std::sort(v.begin(),v.end(),[](Expr*p,Expr*q){return p->id<q->id;});padd(r,v,m.second*n.second);if(polyover)break;}
        done=true;}break;}
  }
  if(!done){r.clear();padd(r,{e},1);}
  return memo[{e,W}]=r;
}
// 1: equal for every value of the atoms, 0: never equal, -1: neither
static int polyeq(Expr*a,Expr*b){
  std::map<std::pair<Expr*,int>,Poly>memo;polyover=false;int W=a->w;
  Poly d=polyof(a,W,memo);const Poly&q=polyof(b,W,memo);for(auto&m:q)padd(d,m.first,0-m.second);
  if(polyover)return -1;
  u64 mk_=(u64)mask(W);bool nonconst=false;u64 c=0;
  for(auto&m:d){if(!(m.second&mk_))continue;if(m.first.empty())c=m.second&mk_;else nonconst=true;}
  if(nonconst)return -1;return c==0;
}
static std::unordered_map<u64,Expr*>*xtmemo;
static int fpsign(Expr*x){ if(!x->fp||!x->dn||isc(x))return 0;return x->dn->slo>0?1:x->dn->shi<0?-1:0; }

static Expr*mk(int op,int w,Expr*a,Expr*b,Expr*c,u64 aux,int fp){
  if(a&&a->pinned)a=a->fp?fcst((u64)a->val,a->w):cst(a->val,a->w);
  if(b&&b->pinned)b=b->fp?fcst((u64)b->val,b->w):cst(b->val,b->w);
  if(c&&c->pinned)c=c->fp?fcst((u64)c->val,c->w):cst(c->val,c->w);
  // canonicalise derived comparisons
  switch(op){
    case OP_NE:return bnot(mk(OP_EQ,1,a,b));case OP_UGT:return mk(OP_ULT,1,b,a);case OP_UGE:return mk(OP_ULE,1,b,a);case OP_SGT:return mk(OP_SLT,1,b,a);case OP_SGE:return mk(OP_SLE,1,b,a);
    case OP_UMIN:return mk(OP_ITE,w,mk(OP_ULT,1,a,b),a,b);case OP_UMAX:return mk(OP_ITE,w,mk(OP_ULT,1,a,b),b,a);
    case OP_SMIN:return mk(OP_ITE,w,mk(OP_SLT,1,a,b),a,b);case OP_SMAX:return mk(OP_ITE,w,mk(OP_SLT,1,a,b),b,a);
    case OP_USUBSAT:return mk(OP_ITE,w,mk(OP_ULT,1,a,b),cst(0,w),mk(OP_SUB,w,a,b));
    case OP_UADDSAT:{Expr*s=mk(OP_ADD,w,a,b);return mk(OP_ITE,w,mk(OP_ULT,1,s,a),cst(mask(w),w),s);}
    case OP_UADDO:{Expr*s=mk(OP_ADD,a->w,a,b);return mk(OP_ULT,1,s,a);}
    case OP_USUBO:return mk(OP_ULT,1,a,b);
    case OP_SADDO:case OP_SSUBO:{int W=a->w;Expr*s=mk(op==OP_SADDO?OP_ADD:OP_SUB,W+1,mk(OP_SEXT,W+1,a),mk(OP_SEXT,W+1,b));return bnot(mk(OP_EQ,1,s,mk(OP_SEXT,W+1,mk(OP_EXTRACT,W,s,0,0,0))));}
    case OP_UMULO:{int W=a->w;Expr*s=mk(OP_MUL,2*W,mk(OP_ZEXT,2*W,a),mk(OP_ZEXT,2*W,b));return bnot(mk(OP_EQ,1,mk(OP_EXTRACT,W,s,0,0,W),cst(0,W)));}
    case OP_SMULO:{int W=a->w;Expr*s=mk(OP_MUL,2*W,mk(OP_SEXT,2*W,a),mk(OP_SEXT,2*W,b));return bnot(mk(OP_EQ,1,s,mk(OP_SEXT,2*W,mk(OP_EXTRACT,W,s,0,0,0))));}
  }
  bool ca=!a||isc(a),cb=!b||isc(b),cc=!c||isc(c);
  if(ca&&cb&&cc&&op!=OP_VAR&&op!=OP_CONST){u128 v=evalop(op,w,a,b,c,aux);return fp?fcst((u64)v,w):cst(v,w);}
  if(!fp&&w<=64&&(!a||!a->fp))switch(op){
    case OP_ADD:
      if(isc(a))std::swap(a,b);
      if(isc(b)){ if(!b->val)return a; if(a->op==OP_ADD&&isc(a->b))return mk(OP_ADD,w,a->a,cst(a->b->val+b->val,w)); }
      break;
    case OP_SUB:if(a==b)return cst(0,w);if(isc(b))return mk(OP_ADD,w,a,cst((u128)0-b->val,w));break;
    case OP_MUL:if(isc(a))std::swap(a,b);if(isc(b)){if(!b->val)return b;if(b->val==1)return a;
        if((b->val&(b->val-1))==0){int k=0;while(!((b->val>>k)&1))k++;return mk(OP_SHL,w,a,cst(k,w));}}break;
    case OP_UDIV:if(isc(b)&&b->val&&(b->val&(b->val-1))==0){int k=0;while(!((b->val>>k)&1))k++;return mk(OP_LSHR,w,a,cst(k,w));}break;
    case OP_UREM:if(isc(b)&&b->val&&(b->val&(b->val-1))==0)return mk(OP_AND,w,a,cst(b->val-1,w));
      if(isc(b)&&b->val&&a->uhi<(u64)b->val)return a;break;
    case OP_AND:if(isc(a))std::swap(a,b);if(a==b)return a;
      if(isc(b)&&a->op==OP_FBITS&&fpsign(a->a)){int g=fpsign(a->a); // sign bit of a number whose sign is known
        if(b->val==mask(w-1))return g>0?a:mk(OP_FBITS,w,mkfp(OP_FNEG,w,a->a));
        if(b->val==(u128)1<<(w-1))return g>0?cst(0,w):b;}
      if(isc(b)){if(!b->val)return b;if(b->val==mask(w))return a;
        if(a->uhi<=(u64)b->val&&((b->val+1)&b->val)==0)return a;
        if(((b->val+1)&b->val)==0){int k=0;while((b->val>>k)&1)k++;return mk(OP_ZEXT,w,mk(OP_EXTRACT,k,a,0,0,0));}}
      if(a->op==OP_ZEXT&&b->op==OP_ZEXT&&a->a->w==b->a->w)return mk(OP_ZEXT,w,mk(op,a->a->w,a->a,b->a));
      if(a->op==OP_ZEXT&&isc(b)&&(op==OP_AND||!(b->val>>a->a->w)))return mk(OP_ZEXT,w,mk(op,a->a->w,a->a,cst(b->val&mask(a->a->w),a->a->w)));
      break;
    case OP_OR:if(isc(a))std::swap(a,b);if(a==b)return a;
      if(isc(b)&&a->op==OP_FBITS&&b->val==(u128)1<<(w-1)&&fpsign(a->a))return fpsign(a->a)<0?a:mk(OP_FBITS,w,mkfp(OP_FNEG,w,a->a));
      if(isc(b)){if(!b->val)return a;if(b->val==mask(w))return b;}
      if(a->op==OP_ZEXT&&b->op==OP_ZEXT&&a->a->w==b->a->w)return mk(OP_ZEXT,w,mk(op,a->a->w,a->a,b->a));
      if(a->op==OP_ZEXT&&isc(b)&&(op==OP_AND||!(b->val>>a->a->w)))return mk(OP_ZEXT,w,mk(op,a->a->w,a->a,cst(b->val&mask(a->a->w),a->a->w)));
      break;
    case OP_XOR:if(isc(a))std::swap(a,b);if(a==b)return cst(0,w);if(isc(b)){if(!b->val)return a;if(a->op==OP_XOR&&isc(a->b))return mk(OP_XOR,w,a->a,cst(a->b->val^b->val,w));
        if(w==1&&a->op==OP_ULT)return mk(OP_ULE,1,a->b,a->a);if(w==1&&a->op==OP_ULE)return mk(OP_ULT,1,a->b,a->a);
        if(w==1&&a->op==OP_SLT)return mk(OP_SLE,1,a->b,a->a);if(w==1&&a->op==OP_SLE)return mk(OP_SLT,1,a->b,a->a);}
      if(a->op==OP_ZEXT&&b->op==OP_ZEXT&&a->a->w==b->a->w)return mk(OP_ZEXT,w,mk(op,a->a->w,a->a,b->a));
      if(a->op==OP_ZEXT&&isc(b)&&(op==OP_AND||!(b->val>>a->a->w)))return mk(OP_ZEXT,w,mk(op,a->a->w,a->a,cst(b->val&mask(a->a->w),a->a->w)));
      break;
    case OP_SHL:case OP_LSHR:case OP_ASHR:if(isc(b)){if(!b->val)return a;
        if(op==OP_LSHR&&b->val<(u128)w)return mk(OP_ZEXT,w,mk(OP_EXTRACT,w-(int)b->val,a,0,0,(u64)b->val));
        if(op!=OP_ASHR&&b->val>=(u128)w)return cst(0,w);}break;
    case OP_EXTRACT:{
      if(w==a->w)return a;u64 lo=aux;
      switch(a->op){
        case OP_EXTRACT:return mk(OP_EXTRACT,w,a->a,0,0,lo+a->aux);
        case OP_FBITS:if(w==1&&lo==(u64)a->w-1&&fpsign(a->a))return cst(fpsign(a->a)<0,1);break;
        case OP_CONCAT:if(lo>=a->b->w)return mk(OP_EXTRACT,w,a->a,0,0,lo-a->b->w);if(lo+w<=a->b->w)return mk(OP_EXTRACT,w,a->b,0,0,lo);
          return mk(OP_CONCAT,w,mk(OP_EXTRACT,(int)(lo+w-a->b->w),a->a,0,0,0),mk(OP_EXTRACT,(int)(a->b->w-lo),a->b,0,0,lo));
        case OP_ZEXT:if(lo>=a->a->w)return cst(0,w);if(lo+w<=a->a->w)return mk(OP_EXTRACT,w,a->a,0,0,lo);return mk(OP_ZEXT,w,mk(OP_EXTRACT,(int)(a->a->w-lo),a->a,0,0,lo));
        case OP_SEXT:if(lo+w<=a->a->w)return mk(OP_EXTRACT,w,a->a,0,0,lo);if(lo<a->a->w)return mk(OP_SEXT,w,mk(OP_EXTRACT,(int)(a->a->w-lo),a->a,0,0,lo));break;
        case OP_AND:case OP_OR:case OP_XOR:return mk(a->op,w,mk(OP_EXTRACT,w,a->a,0,0,lo),mk(OP_EXTRACT,w,a->b,0,0,lo));
        case OP_ITE:return mk(OP_ITE,w,a->a,mk(OP_EXTRACT,w,a->b,0,0,lo),mk(OP_EXTRACT,w,a->c,0,0,lo));
        case OP_SHL:if(isc(a->b)){u64 k=(u64)a->b->val;if(lo>=k)return mk(OP_EXTRACT,w,a->a,0,0,lo-k);if(lo+w<=k)return cst(0,w);
            return mk(OP_CONCAT,w,mk(OP_EXTRACT,(int)(lo+w-k),a->a,0,0,0),cst(0,(int)(k-lo)));}break;
        case OP_ADD:case OP_SUB:case OP_MUL:if(lo==0){
          if(!xtmemo)xtmemo=new std::unordered_map<u64,Expr*>;
          u64 key=((u64)a->id<<8)|(u64)w;auto it=xtmemo->find(key);if(it!=xtmemo->end())return it->second;
          Expr*r=mk(a->op,w,mk(OP_EXTRACT,w,a->a,0,0,0),mk(OP_EXTRACT,w,a->b,0,0,0));(*xtmemo)[key]=r;return r;}
          break;
      }
      if(a->w<=64&&!a->fp&&lo<64&&(a->uhi>>lo)==0)return cst(0,w);
      break;}
    case OP_CONCAT:
      if(a->op==OP_EXTRACT&&b->op==OP_EXTRACT&&a->a==b->a&&a->aux==b->aux+b->w)return mk(OP_EXTRACT,w,a->a,0,0,b->aux);
      if(isc(a)&&a->val==0)return mk(OP_ZEXT,w,b);
      if(b->op==OP_CONCAT&&a->op==OP_EXTRACT&&b->a->op==OP_EXTRACT&&a->a==b->a->a&&a->aux==b->a->aux+b->a->w)return mk(OP_CONCAT,w,mk(OP_EXTRACT,a->w+b->a->w,a->a,0,0,b->a->aux),b->b);
      if(isc(a)&&b->op==OP_CONCAT&&isc(b->a))return mk(OP_CONCAT,w,cst((a->val<<b->a->w)|b->a->val,a->w+b->a->w),b->b);
      if(a->op==OP_CONCAT)return mk(OP_CONCAT,w,a->a,mk(OP_CONCAT,a->b->w+b->w,a->b,b));
      // sign fill: bytes of a sign extension
      break;
    case OP_ZEXT:if(w==a->w)return a;if(a->op==OP_ZEXT)return mk(OP_ZEXT,w,a->a);
      if(a->op==OP_ITE&&isc(a->b)&&isc(a->c))return mk(OP_ITE,w,a->a,mk(OP_ZEXT,w,a->b),mk(OP_ZEXT,w,a->c));break;
    case OP_SEXT:if(w==a->w)return a;if(a->op==OP_SEXT)return mk(OP_SEXT,w,a->a);if(a->op==OP_ZEXT)return mk(OP_ZEXT,w,a->a);
      if(a->w<=64&&a->slo>=0)return mk(OP_ZEXT,w,a);
      if(a->op==OP_ITE&&isc(a->b)&&isc(a->c))return mk(OP_ITE,w,a->a,mk(OP_SEXT,w,a->b),mk(OP_SEXT,w,a->c));break;
    case OP_EQ:
      if(a==b)return cst(1,1);if(isc(a))std::swap(a,b);
      if(!isc(a)&&!isc(b)&&a->id>b->id)std::swap(a,b);
      if(a->w<=64&&(a->uhi<b->ulo||b->uhi<a->ulo||a->shi<b->slo||b->shi<a->slo))return cst(0,1);
      if((a->hasmul||b->hasmul)&&a->w<=64&&!a->fp&&!b->fp){
        int q=polyeq(a,b);if(q>=0)return cst(q,1);
        int need=std::max(bitsfor(a->slo,a->shi),bitsfor(b->slo,b->shi));
        if(need<a->w)return mk(OP_EQ,1,resizeS(a,need),resizeS(b,need));
      }
      if(isc(b)){
        u128 k=b->val;
        if(a->op==OP_FBITS&&a->a->dn&&(a->w==32||a->w==64)){Expr*x=a->a;double d=a->w==64?asd((u64)k):asf((uint32_t)k);i64 n;int sc;
          if(d!=d||std::isinf(d)||(d==0&&fpsign(x)))return cst(0,1);
          if(d!=0&&constview((u64)k,a->w,n,sc)){Expr*p=vishl(x->dn,std::max(sc,x->dsc)-x->dsc);i128 t=(i128)n<<(std::max(sc,x->dsc)-sc);
            if(p){if(t<p->slo||t>p->shi)return cst(0,1);if(p->w>=bitsfor(t,t))return mk(OP_EQ,1,p,cst((u128)t,p->w));}}}
        if(a->w==1)return k?a:bnot(a);
        if(a->op==OP_ZEXT)return (k>>a->a->w)?cst(0,1):mk(OP_EQ,1,a->a,cst(k,a->a->w));
        if(a->op==OP_SEXT){u128 t=k&mask(a->a->w);return ((u128)sx(t,a->a->w)&mask(a->w))==k?mk(OP_EQ,1,a->a,cst(t,a->a->w)):cst(0,1);}
        if(a->op==OP_ADD&&isc(a->b))return mk(OP_EQ,1,a->a,cst(k-a->b->val,a->w));
        if(a->op==OP_XOR&&isc(a->b))return mk(OP_EQ,1,a->a,cst(k^a->b->val,a->w));
        if(a->op==OP_ITE&&(isc(a->b)||isc(a->c)))return mk(OP_ITE,1,a->a,mk(OP_EQ,1,a->b,b),mk(OP_EQ,1,a->c,b));
        if(a->op==OP_CONCAT&&isc(a->a)){ if(a->a->val!=(k>>a->b->w))return cst(0,1);return mk(OP_EQ,1,a->b,cst(k,a->b->w)); }
        if(a->op==OP_CONCAT&&isc(a->b)){ if(a->b->val!=(k&mask(a->b->w)))return cst(0,1);return mk(OP_EQ,1,a->a,cst(k>>a->b->w,a->a->w)); }
        if(a->op==OP_SHL&&isc(a->b)&&a->b->val<a->w){unsigned s=(unsigned)a->b->val;if(k&mask(s))return cst(0,1);return mk(OP_EQ,1,mk(OP_EXTRACT,a->w-s,a->a,0,0,0),cst(k>>s,a->w-s));}
      } else if(a->op==OP_ZEXT&&b->op==OP_ZEXT&&a->a->w==b->a->w)return mk(OP_EQ,1,a->a,b->a);
      else if(a->op==OP_SEXT&&b->op==OP_SEXT&&a->a->w==b->a->w)return mk(OP_EQ,1,a->a,b->a);
      else if(a->op==OP_ADD&&b->op==OP_ADD&&isc(a->b)&&isc(b->b)&&a->w==b->w)
        {if(a->b==b->b)return mk(OP_EQ,1,a->a,b->a);}
      break;
    case OP_ULT:case OP_ULE:
      if(a==b)return cst(op==OP_ULE,1);
      if(a->w<=64){ if(op==OP_ULT){if(a->uhi<b->ulo)return cst(1,1);if(a->ulo>=b->uhi)return cst(0,1);}else{if(a->uhi<=b->ulo)return cst(1,1);if(a->ulo>b->uhi)return cst(0,1);}}
      if(a->op==OP_ZEXT&&b->op==OP_ZEXT&&a->a->w==b->a->w)return mk(op,1,a->a,b->a);
      if(a->op==OP_ZEXT&&isc(b)&&!(b->val>>a->a->w))return mk(op,1,a->a,cst(b->val,a->a->w));
      if(b->op==OP_ZEXT&&isc(a)&&!(a->val>>b->a->w))return mk(op,1,cst(a->val,b->a->w),b->a);
      if(isc(b)&&a->op==OP_ITE&&isc(a->b)&&isc(a->c))return mk(OP_ITE,1,a->a,mk(op,1,a->b,b),mk(op,1,a->c,b));
      if(isc(a)&&b->op==OP_ITE&&isc(b->b)&&isc(b->c))return mk(OP_ITE,1,b->a,mk(op,1,a,b->b),mk(op,1,a,b->c));
      if(op==OP_ULT&&isc(b)&&b->val==1)return mk(OP_EQ,1,a,cst(0,a->w));
      break;
    case OP_SLT:case OP_SLE:
      if(a==b)return cst(op==OP_SLE,1);
      if((a->hasmul||b->hasmul)&&a->w<=64){
        int need=std::max(bitsfor(a->slo,a->shi),bitsfor(b->slo,b->shi));
        if(need<a->w)return mk(op,1,resizeS(a,need),resizeS(b,need));
      }
      if(a->w<=64){ if(op==OP_SLT){if(a->shi<b->slo)return cst(1,1);if(a->slo>=b->shi)return cst(0,1);}else{if(a->shi<=b->slo)return cst(1,1);if(a->slo>b->shi)return cst(0,1);}}
      if(a->op==OP_SEXT&&b->op==OP_SEXT&&a->a->w==b->a->w)return mk(op,1,a->a,b->a);
      if(a->op==OP_ZEXT&&b->op==OP_ZEXT&&a->a->w==b->a->w)return mk(op==OP_SLT?OP_ULT:OP_ULE,1,a->a,b->a);
      if(isc(b)&&a->op==OP_ITE&&isc(a->b)&&isc(a->c))return mk(OP_ITE,1,a->a,mk(op,1,a->b,b),mk(op,1,a->c,b));
      if(isc(a)&&b->op==OP_ITE&&isc(b->b)&&isc(b->c))return mk(OP_ITE,1,b->a,mk(op,1,a,b->b),mk(op,1,a,b->c));
      if(isc(b)&&a->op==OP_SEXT&&sx(b->val,b->w)>=-((i128)1<<(a->a->w-1))&&sx(b->val,b->w)<((i128)1<<(a->a->w-1)))return mk(op,1,a->a,cst(b->val,a->a->w));
      if(isc(a)&&b->op==OP_SEXT&&sx(a->val,a->w)>=-((i128)1<<(b->a->w-1))&&sx(a->val,a->w)<((i128)1<<(b->a->w-1)))return mk(op,1,cst(a->val,b->a->w),b->a);
      break;
    case OP_FBITS:break;
  }
  if(op==OP_ITE){
    if(isc(a))return a->val?b:c; if(b==c)return b;
    if(a->op==OP_XOR&&isc(a->b))return mk(OP_ITE,w,a->a,c,b,0,fp); // ite(!x,b,c)
    if(!fp&&w==1){ if(isc(b)&&isc(c))return b->val?a:bnot(a);
      if(isc(b))return b->val?mk(OP_OR,1,a,c):mk(OP_AND,1,bnot(a),c);
      if(isc(c))return c->val?mk(OP_OR,1,bnot(a),b):mk(OP_AND,1,a,b);}
    if(b->op==OP_ITE&&b->a==a)return mk(OP_ITE,w,a,b->b,c,0,fp);
    if(c->op==OP_ITE&&c->a==a)return mk(OP_ITE,w,a,b,c->c,0,fp);
    Expr*e=intern(OP_ITE,w,a,b,c,0,fp);
    if(fp&&!e->dn&&b->dn&&c->dn){Expr*x,*y;int sc;if(alignviews(b,c,x,y,sc)){int W=std::max(x->w,y->w);setview(e,mk(OP_ITE,W,a,resizeS(x,W),resizeS(y,W)),sc);}}
    return e;
  }
  if(op==OP_FBITS){ if(a->op==OP_FFROM)return a->a; if(isc(a))return cst(a->val,w);
    if(a->op==OP_ITE)return mk(OP_ITE,w,a->a,mk(OP_FBITS,w,a->b),mk(OP_FBITS,w,a->c));
    if(int g=fpsign(a)){Expr*e=intern(op,w,a,0,0,aux,0);if(w==32){if(g>0){e->slo=std::max<i64>(e->slo,1);e->shi=std::min<i64>(e->shi,0x7fffffff);e->ulo=1;e->uhi=0x7fffffff;}else{e->slo=std::max<i64>(e->slo,INT32_MIN);e->shi=std::min<i64>(e->shi,-1);e->ulo=0x80000001;e->uhi=0xffffffff;}}
      else if(w==64){if(g>0){e->slo=std::max<i64>(e->slo,1);e->ulo=1;e->uhi=INT64_MAX;}else{e->shi=std::min<i64>(e->shi,-1);e->ulo=(1ULL<<63)+1;}}return e;} }
  if(op==OP_FFROM){ if(a->op==OP_FBITS)return a->a; if(isc(a))return fcst((u64)a->val,w);
    if(a->op==OP_ITE)return mk(OP_ITE,w,a->a,mkfp(OP_FFROM,w,a->b),mkfp(OP_FFROM,w,a->c),0,fp);}
  // floating point
  if(fp&&(op==OP_FADD||op==OP_FSUB||op==OP_FMUL||op==OP_FDIV)){
    // x+0.0, x*1.0 : x*1 exact identity; x+0 is identity except -0 -> +0: keep the node, it has a view
    if(op==OP_FMUL){ if(isc(b)&&(w==64?asd(b->val)==1.0:asf(b->val)==1.0f))return a; if(isc(a)&&(w==64?asd(a->val)==1.0:asf(a->val)==1.0f))return b; }
    if(op==OP_FDIV&&isc(b)&&(w==64?asd(b->val)==1.0:asf(b->val)==1.0f))return a;
    if(!(a->dn&&b->dn)){ // distribute over special (inf/nan) branches so the finite part keeps its view
      if(a->op==OP_ITE&&hasspecial(a))return mk(OP_ITE,w,a->a,mk(op,w,a->b,b,0,aux,fp),mk(op,w,a->c,b,0,aux,fp),0,fp);
      if(b->op==OP_ITE&&hasspecial(b))return mk(OP_ITE,w,b->a,mk(op,w,a,b->b,0,aux,fp),mk(op,w,a,b->c,0,aux,fp),0,fp);
      // finite view (+/-) inf
      if((op==OP_FADD||op==OP_FSUB)&&a->dn&&infnan(b))return fcst((u64)evalop(op,w,fcst(w==64?bd(0.0):bf(0.0f),w),b,0,0),w);
      if((op==OP_FADD||op==OP_FSUB)&&b->dn&&infnan(a))return fcst((u64)evalop(op,w,a,fcst(w==64?bd(0.0):bf(0.0f),w),0,0),w);
    }
    Expr*e=intern(op,w,a,b,0,aux,fp);
    if(!e->dn&&a->dn&&b->dn){
      if(op==OP_FADD||op==OP_FSUB){Expr*x,*y;int sc;if(alignviews(a,b,x,y,sc))setview(e,viadd(x,y,op==OP_FSUB),sc);}
      else if(op==OP_FMUL)setview(e,vimul(a->dn,b->dn),a->dsc+b->dsc);
      else if(isc(b)&&isc(b->dn)){ // divide by +-2^k
        i64 k=(i64)sx(b->dn->val,64);i64 m=k<0?-k:k;
        if(m&&(m&(m-1))==0){int l=__builtin_ctzll(m);int sc=a->dsc+l-b->dsc;Expr*n=a->dn;if(sc<0){n=vishl(n,-sc);sc=0;} if(n&&k<0)n=viadd(cst(0,1),n,true); setview(e,n,sc);}
      }
    }
    return e;
  }
  if(fp&&(op==OP_FMIN||op==OP_FMAX)&&a->dn&&b->dn){ // finite values: exact as a select (zero sign aside)
    return mk(OP_ITE,w,mk(OP_FCMP+(op==OP_FMIN?4:2),1,a,b),a,b,0,fp);
  }
  if(fp&&(op==OP_FNEG||op==OP_FABS||op==OP_FFLOOR||op==OP_FCEIL||op==OP_FTRUNC||op==OP_FPCONV)){
    if(op==OP_FNEG&&a->op==OP_FNEG)return a->a;
    if(op==OP_FABS&&fpsign(a))return fpsign(a)>0?a:mkfp(OP_FNEG,w,a);
    if(!a->dn&&a->op==OP_ITE&&hasspecial(a))return mk(OP_ITE,w,a->a,mk(op,w,a->b,0,0,aux,fp),mk(op,w,a->c,0,0,aux,fp),0,fp);
    Expr*e=intern(op,w,a,0,0,aux,fp);
    if(!e->dn&&a->dn){
      Expr*n=a->dn;
      if(op==OP_FNEG)setview(e,viadd(cst(0,1),n,true),a->dsc);
      else if(op==OP_FABS){ Expr*ng=viadd(cst(0,1),n,true); if(ng){int W=std::max(ng->w,n->w);setview(e,mk(OP_ITE,W,mk(OP_SLT,1,n,cst(0,n->w)),resizeS(ng,W),resizeS(n,W)),a->dsc);} }
      else if(op==OP_FPCONV)setview(e,n,a->dsc);
      else if(a->dsc==0)setview(e,n,0);
      else { int k=a->dsc; if(k<n->w-1){
          Expr*fl=mk(OP_ASHR,n->w,n,cst(k,n->w));
          Expr*n2=resizeS(n,n->w+2>62?62:n->w+2);Expr*ce=mk(OP_ASHR,n2->w,mk(OP_ADD,n2->w,n2,cst(((u64)1<<k)-1,n2->w)),cst(k,n2->w));
          Expr*r=op==OP_FFLOOR?resizeS(fl,n2->w):op==OP_FCEIL?ce:mk(OP_ITE,n2->w,mk(OP_SLT,1,n,cst(0,n->w)),ce,resizeS(fl,n2->w));
          setview(e,r,0);} }
    }
    return e;
  }
  if(fp&&(op==OP_SITOFP||op==OP_UITOFP)){
    Expr*n=a;
    if(a->w<=64){
      if(op==OP_UITOFP&&a->uhi<=(1ULL<<53)){ n=a->slo>=0?a:(a->w<64?mk(OP_ZEXT,a->w+1,a):nullptr); }
      else if(op==OP_UITOFP)n=nullptr;
      if(n){n=narrowS(n);if(viewfits(n,w)){Expr*e=viewexpr(n,0,w);return e;}}
    }
  }
  if(op==OP_FDY){Expr*e=intern(op,w,a,0,0,aux,fp);if(!e->dn)setview(e,a,(int)aux);return e;}
  if((op==OP_FPTOSI||op==OP_FPTOUI)&&a->dn){
    Expr*n=a->dn;
    if(a->dsc){Expr*t=mk(OP_FTRUNC,a->w,a,0,0,0,a->w);n=t->dn;if(n&&t->dsc)n=nullptr;}
    if(n){ return resizeS(n,w); }
  }
  if((op==OP_FPTOSI||op==OP_FPTOUI)&&a->op==OP_ITE&&(isc(a->b)||isc(a->c)))return mk(OP_ITE,w,a->a,mk(op,w,a->b),mk(op,w,a->c));
  if(op>=OP_FCMP){
    int p=op-OP_FCMP;
    if(p==0)return cst(0,1);if(p==15)return cst(1,1);
    Expr*x,*y;int sc;
    if(alignviews(a,b,x,y,sc)){
      int W=std::max(x->w,y->w);x=resizeS(x,W);y=resizeS(y,W);
      if((p&7)==1||(p&7)==6){int q=polyeq(x,y);if(q>=0)return cst((p&7)==1?q:!q,1);}
      switch(p){case 1:case 9:return mk(OP_EQ,1,x,y);case 2:case 10:return mk(OP_SLT,1,y,x);case 3:case 11:return mk(OP_SLE,1,y,x);case 4:case 12:return mk(OP_SLT,1,x,y);case 5:case 13:return mk(OP_SLE,1,x,y);case 6:case 14:return bnot(mk(OP_EQ,1,x,y));case 7:return cst(1,1);case 8:return cst(0,1);}
    }
    if((a->dn&&isc(b)&&!infnan(b))||(b->dn&&isc(a)&&!infnan(a))){ // a grid value against a constant off the grid
      bool sw=!(a->dn&&isc(b));Expr*v=sw?b:a;Expr*k=sw?a:b;int q=p&7;
      double K=std::ldexp(v->w==64?asd(k->val):(double)asf(k->val),v->dsc);
      if(q==7)return cst(p==7,1); if(p==8)return cst(0,1);
      if(sw)q=q==2?4:q==3?5:q==4?2:q==5?3:q;
      if(std::isfinite(K)){
        double F=std::floor(K);bool ii=F==K;
        bool eqf=q==1||q==6;
        if(eqf&&!ii)return cst(q==6,1);
        // n<=t (t=F, or F-1 for a strict comparison with an integer) or its negation
        if(!eqf){
          bool neg=q==2||q==3;double t=F;if(ii&&(q==4||q==3))t=F-1;
          if(t<(double)v->dn->slo)return cst(neg,1);
          if(t>=(double)v->dn->shi)return cst(!neg,1);
          Expr*r=mk(OP_SLE,1,v->dn,cst((u128)(i128)(i64)t,v->dn->w));
          return neg?bnot(r):r;
        }
      }
    }
    if(a->dn&&infnan(b))return cst(evalop(op,1,fcst(a->w==64?bd(0.0):bf(0.0f),a->w),b,0,0),1);
    if(b->dn&&infnan(a))return cst(evalop(op,1,a,fcst(a->w==64?bd(0.0):bf(0.0f),a->w),0,0),1);
    if(a->op==OP_ITE&&(hasspecial(a)||(isc(b)&&isc(a->b)&&isc(a->c))))return mk(OP_ITE,1,a->a,mk(op,1,a->b,b),mk(op,1,a->c,b));
    if(b->op==OP_ITE&&(hasspecial(b)||(isc(a)&&isc(b->b)&&isc(b->c))))return mk(OP_ITE,1,b->a,mk(op,1,a,b->b),mk(op,1,a,b->c));
    // the same non-NaN-able value
  }
  return intern(op,w,a,b,c,aux,fp);
}
static Expr*toFP(Expr*e,int w){return e->fp?e:mkfp(OP_FFROM,w,e);}
static Expr*toBV(Expr*e){return e->fp?mk(OP_FBITS,e->w,e):e;}
// ITE over values that may be FP- or BV-sorted
static inline Expr*live(Expr*e){return (!e||e->pinned||isc(e))?nullptr:e;}

// ---------------------------------------------------------------- Z3
static Z3_context zc;static Z3_solver zs;static Z3_sort zfp64,zfp32;static Z3_ast zrne,zrtz,zrtp,zrtn,zrna;
static unsigned solver_timeout=20000;
static void zerr(Z3_context c,Z3_error_code e){std::string m="z3: ";m+=Z3_get_error_msg(c,e);engine_error(m.c_str());}
static Z3_sort fps(int w){return w==64?zfp64:zfp32;}
static int usesfp=0;
static void z3init(){
  if(zc)return;
  Z3_config cfg=Z3_mk_config();zc=Z3_mk_context(cfg);Z3_set_error_handler(zc,zerr);
  zfp64=Z3_mk_fpa_sort_double(zc);zfp32=Z3_mk_fpa_sort_single(zc);
  zrne=Z3_mk_fpa_rne(zc);zrtz=Z3_mk_fpa_rtz(zc);zrtp=Z3_mk_fpa_rtp(zc);zrtn=Z3_mk_fpa_rtn(zc);zrna=Z3_mk_fpa_rna(zc);
}
static Z3_ast znum(u128 v,int w){
  Z3_sort s=Z3_mk_bv_sort(zc,w);
  if(w<=64)return Z3_mk_unsigned_int64(zc,(u64)v,s);
  Z3_ast hi=Z3_mk_unsigned_int64(zc,(u64)(v>>64),Z3_mk_bv_sort(zc,w-64)),lo=Z3_mk_unsigned_int64(zc,(u64)v,Z3_mk_bv_sort(zc,64));
  return Z3_mk_concat(zc,hi,lo);
}
static Z3_ast zx(Expr*e);
static Z3_ast zbool(Expr*e); // width-1 expr as Bool
static std::unordered_map<Expr*,Z3_ast>*zboolmemo;
static std::vector<Z3_ast>*zdefs; // defining constraints for fp->bits
static Z3_ast b2v(Z3_ast b){return Z3_mk_ite(zc,b,znum(1,1),znum(0,1));}
static Z3_ast zbool(Expr*e){
  auto it=zboolmemo->find(e);if(it!=zboolmemo->end())return it->second;
  Z3_ast r;
  switch(e->op){
    case OP_CONST:r=e->val?Z3_mk_true(zc):Z3_mk_false(zc);break;
    case OP_EQ:r=Z3_mk_eq(zc,zx(e->a),zx(e->b));break;
    case OP_ULT:r=Z3_mk_bvult(zc,zx(e->a),zx(e->b));break;case OP_ULE:r=Z3_mk_bvule(zc,zx(e->a),zx(e->b));break;
    case OP_SLT:r=Z3_mk_bvslt(zc,zx(e->a),zx(e->b));break;case OP_SLE:r=Z3_mk_bvsle(zc,zx(e->a),zx(e->b));break;
    case OP_AND:{Z3_ast x[2]={zbool(e->a),zbool(e->b)};r=Z3_mk_and(zc,2,x);break;}
    case OP_OR:{Z3_ast x[2]={zbool(e->a),zbool(e->b)};r=Z3_mk_or(zc,2,x);break;}
    case OP_XOR:if(isc(e->b)&&e->b->val==1)r=Z3_mk_not(zc,zbool(e->a));else r=Z3_mk_xor(zc,zbool(e->a),zbool(e->b));break;
    case OP_ITE:r=Z3_mk_ite(zc,zbool(e->a),zbool(e->b),zbool(e->c));break;
    default:
      if(e->op>=OP_FCMP){
        int p=e->op-OP_FCMP;Z3_ast x=zx(e->a),y=zx(e->b);usesfp=1;
        Z3_ast un2[2]={Z3_mk_fpa_is_nan(zc,x),Z3_mk_fpa_is_nan(zc,y)};Z3_ast un=Z3_mk_or(zc,2,un2);Z3_ast c=nullptr;
        switch(p&7){case 1:c=Z3_mk_fpa_eq(zc,x,y);break;case 2:c=Z3_mk_fpa_gt(zc,x,y);break;case 3:c=Z3_mk_fpa_geq(zc,x,y);break;case 4:c=Z3_mk_fpa_lt(zc,x,y);break;case 5:c=Z3_mk_fpa_leq(zc,x,y);break;
          case 6:{Z3_ast q[2]={Z3_mk_not(zc,un),Z3_mk_not(zc,Z3_mk_fpa_eq(zc,x,y))};c=Z3_mk_and(zc,2,q);break;}
          case 7:c=Z3_mk_not(zc,un);break;case 0:c=Z3_mk_false(zc);break;}
        if(p&8){ if(p==14)c=Z3_mk_not(zc,Z3_mk_fpa_eq(zc,x,y)); else if(p==8)c=un; else {Z3_ast q[2]={un,c};c=Z3_mk_or(zc,2,q);} }
        r=c;
      } else r=Z3_mk_eq(zc,zx(e),znum(1,1));
  }
  (*zboolmemo)[e]=r;return r;
}
static Z3_ast zx(Expr*e){
  if(e->z3set)return e->z;
  Z3_ast r=nullptr;Expr*a=e->a,*b=e->b,*c=e->c;int w=e->w;
  if(e->fp)usesfp=1;
  switch(e->op){
    case OP_CONST:if(e->fp)r=Z3_mk_fpa_to_fp_bv(zc,znum(e->val,w),fps(w));else r=znum(e->val,w);break;
    case OP_VAR:{char nm[32];snprintf(nm,32,"v%llu",(unsigned long long)e->aux);r=Z3_mk_const(zc,Z3_mk_string_symbol(zc,nm),Z3_mk_bv_sort(zc,w));break;}
    case OP_ADD:r=Z3_mk_bvadd(zc,zx(a),zx(b));break;case OP_SUB:r=Z3_mk_bvsub(zc,zx(a),zx(b));break;case OP_MUL:r=Z3_mk_bvmul(zc,zx(a),zx(b));break;
    case OP_UDIV:r=Z3_mk_bvudiv(zc,zx(a),zx(b));break;case OP_SDIV:r=Z3_mk_bvsdiv(zc,zx(a),zx(b));break;case OP_UREM:r=Z3_mk_bvurem(zc,zx(a),zx(b));break;case OP_SREM:r=Z3_mk_bvsrem(zc,zx(a),zx(b));break;
    case OP_AND:if(w==1){r=b2v(zbool(e));break;}r=Z3_mk_bvand(zc,zx(a),zx(b));break;
    case OP_OR:if(w==1){r=b2v(zbool(e));break;}r=Z3_mk_bvor(zc,zx(a),zx(b));break;
    case OP_XOR:if(w==1){r=b2v(zbool(e));break;}r=Z3_mk_bvxor(zc,zx(a),zx(b));break;
    case OP_SHL:r=Z3_mk_bvshl(zc,zx(a),zx(b));break;case OP_LSHR:r=Z3_mk_bvlshr(zc,zx(a),zx(b));break;case OP_ASHR:r=Z3_mk_bvashr(zc,zx(a),zx(b));break;
    case OP_EQ:case OP_ULT:case OP_ULE:case OP_SLT:case OP_SLE:r=b2v(zbool(e));break;
    case OP_CONCAT:r=Z3_mk_concat(zc,zx(a),zx(b));break;
    case OP_EXTRACT:r=Z3_mk_extract(zc,(unsigned)(e->aux+w-1),(unsigned)e->aux,zx(a));break;
    case OP_ZEXT:r=Z3_mk_zero_ext(zc,w-a->w,zx(a));break;case OP_SEXT:r=Z3_mk_sign_ext(zc,w-a->w,zx(a));break;
    case OP_ITE:if(w==1&&!e->fp){r=b2v(zbool(e));break;}r=Z3_mk_ite(zc,zbool(a),zx(b),zx(c));break;
    case OP_FADD:r=Z3_mk_fpa_add(zc,zrne,zx(a),zx(b));break;case OP_FSUB:r=Z3_mk_fpa_sub(zc,zrne,zx(a),zx(b));break;case OP_FMUL:r=Z3_mk_fpa_mul(zc,zrne,zx(a),zx(b));break;case OP_FDIV:r=Z3_mk_fpa_div(zc,zrne,zx(a),zx(b));break;
    case OP_FNEG:r=Z3_mk_fpa_neg(zc,zx(a));break;case OP_FABS:r=Z3_mk_fpa_abs(zc,zx(a));break;case OP_FSQRT:r=Z3_mk_fpa_sqrt(zc,zrne,zx(a));break;
    case OP_FFLOOR:r=Z3_mk_fpa_round_to_integral(zc,zrtn,zx(a));break;case OP_FCEIL:r=Z3_mk_fpa_round_to_integral(zc,zrtp,zx(a));break;case OP_FTRUNC:r=Z3_mk_fpa_round_to_integral(zc,zrtz,zx(a));break;case OP_FRINT:r=Z3_mk_fpa_round_to_integral(zc,zrne,zx(a));break;case OP_FROUND:r=Z3_mk_fpa_round_to_integral(zc,zrna,zx(a));break;
    case OP_FMIN:r=Z3_mk_fpa_min(zc,zx(a),zx(b));break;case OP_FMAX:r=Z3_mk_fpa_max(zc,zx(a),zx(b));break;
    case OP_FPCONV:r=Z3_mk_fpa_to_fp_float(zc,zrne,zx(a),fps(w));break;
    case OP_FPTOSI:r=Z3_mk_fpa_to_sbv(zc,zrtz,zx(a),w);break;case OP_FPTOUI:r=Z3_mk_fpa_to_ubv(zc,zrtz,zx(a),w);break;
    case OP_SITOFP:r=Z3_mk_fpa_to_fp_signed(zc,zrne,zx(a),fps(w));break;case OP_UITOFP:r=Z3_mk_fpa_to_fp_unsigned(zc,zrne,zx(a),fps(w));break;
    case OP_FBITS:r=Z3_mk_fpa_to_ieee_bv(zc,zx(a));break;
    case OP_FFROM:r=Z3_mk_fpa_to_fp_bv(zc,zx(a),fps(w));break;
    case OP_FDY:{r=Z3_mk_fpa_to_fp_signed(zc,zrne,zx(a),fps(w));if(e->aux)r=Z3_mk_fpa_mul(zc,zrne,r,Z3_mk_fpa_to_fp_bv(zc,znum(w==64?bd(ldexp(1.0,-(int)e->aux)):bf((float)ldexp(1.0,-(int)e->aux)),w),fps(w)));break;}
    case OP_FTABLE:{Z3_ast k=zx(a);r=Z3_mk_fpa_to_fp_bv(zc,znum(e->tab->back().second,w),fps(w));
      for(size_t i=0;i+1<e->tab->size();i++)r=Z3_mk_ite(zc,Z3_mk_eq(zc,k,znum((u128)(i128)(*e->tab)[i].first,a->w)),Z3_mk_fpa_to_fp_bv(zc,znum((*e->tab)[i].second,w),fps(w)),r);break;}
    default:
      if(e->op>=OP_FCMP){r=b2v(zbool(e));break;}
      engine_error("zx: op without SMT meaning");r=znum(0,w);
  }
  e->z=r;e->z3set=1;return r;
}

// ---------------------------------------------------------------- path state
struct Item{std::vector<u64>in;u64 bound,hash;std::vector<u64>excl;};
static Item*item;static u64 evidx,evhash;
static std::vector<u64>*varoff; // input value = variable - offset
static std::vector<Expr*>*vars;static std::vector<u64>*curin;static std::vector<int>*varkind;
static std::unordered_map<Expr*,int>*known;
static std::vector<Expr*>*pend;        // asserted constraints not yet in solver
static std::string*out;                 // result buffer
static int outfd=-1;static int concrete_mode=0;static int allow_abort=0;
struct Stats{u64 queries,sat,unsat,unk,solver_us,events,pins,asserts,asserts_sym,assumes,stale,folded,cmpchk;}st;
static std::unordered_set<const char*>*fnset,*leakset,*pinset;
static std::set<std::string>*reached;
static const char*cur_what;static int incomplete=0;static u64 opt_pinmax=5000;
static int ended=0;
static u64 now_us(){timespec t;clock_gettime(CLOCK_MONOTONIC,&t);return (u64)t.tv_sec*1000000+t.tv_nsec/1000;}
static void flush_out(){
  size_t o=0;while(o<out->size()){ssize_t k=write(outfd,out->data()+o,out->size()-o);if(k<=0){if(errno==EINTR)continue;break;}o+=k;}out->clear();
}
static std::string inputs_str(const std::vector<u64>&v){std::string s=std::to_string(v.size());for(u64 x:v){s+=' ';s+=std::to_string(x);}return s;}
static void finish(const char*how){
  if(ended)_exit(0);ended=1;active=0;in_rt++;
  char b[512];
  snprintf(b,sizeof b,"S %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %d %llu\n",(unsigned long long)st.queries,(unsigned long long)st.sat,(unsigned long long)st.unsat,(unsigned long long)st.unk,(unsigned long long)st.solver_us,(unsigned long long)st.events,(unsigned long long)st.pins,(unsigned long long)st.asserts,(unsigned long long)st.asserts_sym,(unsigned long long)st.assumes,(unsigned long long)st.stale,incomplete,(unsigned long long)nexprs);
  *out+=b;
  for(auto*f:*fnset){*out+="F ";*out+=f;*out+='\n';}
  for(auto*f:*leakset){*out+="L ";*out+=f;*out+='\n';}
  for(auto*f:*pinset){*out+="P ";*out+=f;*out+='\n';}
  for(auto&f:*reached){*out+="R ";*out+=f;*out+='\n';}
  *out+="I ";*out+=inputs_str(*curin);*out+="\n";
  *out+="D ";*out+=how;*out+="\n";flush_out();_exit(0);
}
static void engine_error(const char*m){
  in_rt++;
  if(getenv("VS_DEBUG")){fprintf(stderr,"ERR %s ev=%llu in:",m,(unsigned long long)evidx);for(u64 x:*curin)fprintf(stderr," %llu",(unsigned long long)x);fprintf(stderr,"\n");}
  if(out){*out+="E ";*out+=m;*out+="\n";finish("engine-error");}
  fprintf(stderr,"vsym engine error: %s\n",m);_exit(98);
}
static void sanitize(std::string&s){for(auto&c:s)if(c=='\n')c=' ';}
static void emit_violation(const char*kind,const std::vector<u64>&in,const char*msg){
  std::string m=msg;sanitize(m);
  *out+="V ";*out+=kind;*out+=" ";*out+=inputs_str(in);*out+=" ";*out+=m;*out+="\n";
}
static void report_violation(const char*kind,const char*msg){
  ENTER;if(getenv("VS_VBT")){int f=open(getenv("VS_VBT"),O_WRONLY|O_CREAT|O_APPEND,0644);char b[400];snprintf(b,400,"%s in_rt=%d abump=%llx concrete=%d\n",msg,in_rt,(unsigned long long)abump,concrete_mode);if(write(f,b,strlen(b))){}void*bt[40];int n=backtrace(bt,40);backtrace_symbols_fd(bt,n,f);int m=open("/proc/self/maps",O_RDONLY);char mb[4096];ssize_t k;while((k=read(m,mb,4096))>0)if(write(f,mb,k)){}close(m);close(f);}
  if(!out){fprintf(stderr,"violation in setup: %s %s\n",kind,msg);_exit(97);}
  emit_violation(kind,*curin,msg);finish("violation");
}
static void addc(Expr*e,bool val){ // assert e==val on the path
  Expr*k=e;bool v=val;if(k->op==OP_XOR&&isc(k->b)&&k->w==1){k=k->a;v=!v;}
  (*known)[k]=v;pend->push_back(val?e:bnot(e));
  // conjunctions/disjunctions give their parts
  Expr*kk=k;if(kk->op==OP_AND&&v&&kk->w==1){(*known)[kk->a]=1;(*known)[kk->b]=1;}
  if(kk->op==OP_OR&&!v&&kk->w==1){(*known)[kk->a]=0;(*known)[kk->b]=0;}
}
static int zs_fp=0;static std::vector<Z3_ast>*zall;
static std::vector<Expr*>*pathc;
static void flush_constraints(){
  if(!pathc)pathc=new std::vector<Expr*>;
  if(zs&&usesfp&&!zs_fp){Z3_solver_dec_ref(zc,zs);zs=nullptr;}
  if(!zs){
    if(!zc)z3init();
    if(!zall)zall=new std::vector<Z3_ast>;
    // bit-vector queries go to the incremental SAT solver, floating point to the general one
    zs=(usesfp||!getenv("VS_INCSAT"))?Z3_mk_solver(zc):Z3_mk_solver_for_logic(zc,Z3_mk_string_symbol(zc,"QF_BV"));Z3_solver_inc_ref(zc,zs);zs_fp=usesfp;
    for(auto a:*zall)Z3_solver_assert(zc,zs,a);
    Z3_params p=Z3_mk_params(zc);Z3_params_inc_ref(zc,p);Z3_params_set_uint(zc,p,Z3_mk_string_symbol(zc,"timeout"),solver_timeout);Z3_solver_set_params(zc,zs,p);
  }
  for(auto*e:*pend){pathc->push_back(e);Z3_ast a=zbool(e);zall->push_back(a);Z3_solver_assert(zc,zs,a);}
  pend->clear();
  if(usesfp&&!zs_fp)flush_constraints();
}
// ---------------------------------------------------------------- linear integer view
// The same path constraints over mathematical integers, when every operation in
// them is linear and provably does not overflow. Fails (null) otherwise.
static std::unordered_map<Expr*,Z3_ast>*zimemo,*zibmemo;static Z3_sort zint;static bool zifail;
static std::vector<std::pair<Expr*,Z3_ast>>*zivars;static std::vector<Z3_ast>*zidefs;
static Z3_ast znumi(i128 v){char b[64];if(v>INT64_MAX)snprintf(b,64,"%llu",(unsigned long long)v);else snprintf(b,64,"%lld",(long long)v);return Z3_mk_numeral(zc,b,zint);}
static Z3_ast zib(Expr*e);static Z3_ast zi(Expr*e);
static Z3_ast zu(Expr*e){ // unsigned value
  if(isc(e))return znumi((i128)e->val);Z3_ast x=zi(e);if(!x||e->slo>=0)return x;if(e->w>=62)return nullptr;
  Z3_ast q[2]={x,znumi((i128)1<<e->w)};return Z3_mk_ite(zc,Z3_mk_lt(zc,x,znumi(0)),Z3_mk_add(zc,2,q),x);}
static Z3_ast zi(Expr*e){ // signed value
  auto it=zimemo->find(e);if(it!=zimemo->end())return it->second;
  Z3_ast r=nullptr;Expr*a=e->a,*b=e->b;
  if(!e->fp&&e->w<=64)switch(e->op){
    case OP_CONST:r=znumi(sx(e->val,e->w));break;
    case OP_VAR:{char nm[32];snprintf(nm,32,"i%llu",(unsigned long long)e->aux);r=Z3_mk_const(zc,Z3_mk_string_symbol(zc,nm),zint);
        zivars->push_back({e,r});Z3_ast q[2]={Z3_mk_ge(zc,r,znumi((i128)e->slo)),Z3_mk_le(zc,r,znumi((i128)e->shi))};zidefs->push_back(Z3_mk_and(zc,2,q));break;}
    case OP_ZEXT:if(a->w==1){Z3_ast c=zib(a);if(c)r=Z3_mk_ite(zc,c,znumi(1),znumi(0));}else r=zu(a);break;
    case OP_SEXT:r=zi(a);break;
    case OP_EXTRACT:if(e->aux==0&&a->w<=64&&fitsS(a->slo,a->shi,e->w))r=zi(a);break;
    case OP_ADD:case OP_SUB:{i128 lo=(i128)a->slo+(e->op==OP_ADD?(i128)b->slo:-(i128)b->shi),hi=(i128)a->shi+(e->op==OP_ADD?(i128)b->shi:-(i128)b->slo);
      if(fitsS(lo,hi,e->w)||(e->w==64&&lo>=INT64_MIN&&hi<=INT64_MAX)){Z3_ast x=zi(a),y=x?zi(b):nullptr;if(x&&y){Z3_ast q[2]={x,y};r=e->op==OP_ADD?Z3_mk_add(zc,2,q):Z3_mk_sub(zc,2,q);}}break;}
    case OP_SHL:if(isc(b)&&b->val<60){unsigned k=(unsigned)b->val;if(fitsS((i128)a->slo<<k,(i128)a->shi<<k,e->w)){Z3_ast x=zi(a);if(x){Z3_ast q[2]={x,znumi((i128)1<<k)};r=Z3_mk_mul(zc,2,q);}}}break;
    case OP_MUL:if(isc(b)||isc(a)){Expr*k=isc(b)?b:a,*v=isc(b)?a:b;i128 c=sx(k->val,k->w),l=c*v->slo,h=c*v->shi;if(l>h)std::swap(l,h);if(fitsS(l,h,e->w)){Z3_ast x=zi(v);if(x){Z3_ast q[2]={x,znumi(c)};r=Z3_mk_mul(zc,2,q);}}}break;
    case OP_ITE:if(e->w>1){Z3_ast c=zib(a),x=c?zi(b):nullptr,y=x?zi(e->c):nullptr;if(y)r=Z3_mk_ite(zc,c,x,y);}break;
  }
  return (*zimemo)[e]=r;
}
static Z3_ast zib(Expr*e){
  auto it=zibmemo->find(e);if(it!=zibmemo->end())return it->second;
  Z3_ast r=nullptr;Expr*a=e->a,*b=e->b;
  switch(e->op){
    case OP_CONST:r=e->val?Z3_mk_true(zc):Z3_mk_false(zc);break;
    case OP_AND:case OP_OR:{Z3_ast x=zib(a),y=x?zib(b):nullptr;if(y){Z3_ast q[2]={x,y};r=e->op==OP_AND?Z3_mk_and(zc,2,q):Z3_mk_or(zc,2,q);}break;}
    case OP_XOR:{Z3_ast x=zib(a),y=x?zib(b):nullptr;if(y)r=isc(b)?(b->val?Z3_mk_not(zc,x):x):Z3_mk_xor(zc,x,y);break;}
    case OP_ITE:{Z3_ast c=zib(a),x=c?zib(b):nullptr,y=x?zib(e->c):nullptr;if(y)r=Z3_mk_ite(zc,c,x,y);break;}
    case OP_EQ:if(!a->fp&&a->w<=64){if(a->w==1){Z3_ast x=zib(a),y=x?zib(b):nullptr;if(y)r=Z3_mk_iff(zc,x,y);break;}
      Z3_ast x=zi(a),y=x?zi(b):nullptr;if(y)r=Z3_mk_eq(zc,x,y);}break;
    case OP_SLT:case OP_SLE:if(a->w<=64){Z3_ast x=zi(a),y=x?zi(b):nullptr;if(y)r=e->op==OP_SLT?Z3_mk_lt(zc,x,y):Z3_mk_le(zc,x,y);}break;
    case OP_ULT:case OP_ULE:if(a->w<=64&&!a->fp){Z3_ast x=zu(a),y=x?zu(b):nullptr;
        if(x&&y)r=e->op==OP_ULT?Z3_mk_lt(zc,x,y):Z3_mk_le(zc,x,y);}break;
  }
  return (*zibmemo)[e]=r;
}
// does the term add symbolic values (where bit-blasting is the wrong tool)?
static std::unordered_map<Expr*,char>*armemo;
static bool arith(Expr*e){ if(!armemo)armemo=new std::unordered_map<Expr*,char>;if(!e||isc(e)||e->op==OP_VAR)return false;auto it=armemo->find(e);if(it!=armemo->end())return it->second;
  bool r=((e->op==OP_ADD||e->op==OP_SUB)&&!isc(e->a)&&!isc(e->b)&&!e->fp)||arith(e->a)||arith(e->b)||arith(e->c);return (*armemo)[e]=r; }
static void dump(Expr*e,int d){ if(!e||d>7)return;fprintf(stderr,"%*s op%d w%d aux%llu val%llx s[%lld,%lld]%s\n",2*d+1,"",e->op,e->w,(unsigned long long)e->aux,(unsigned long long)e->val,(long long)e->slo,(long long)e->shi,e->dn?" view":"");dump(e->a,d+1);dump(e->b,d+1);dump(e->c,d+1);}
static Z3_solver zis;static size_t zisdone;static bool zidead;static size_t zidefdone;

// is (path && conj) satisfiable? fills model
static int query(const std::vector<Expr*>&conj,std::vector<u64>*model){
  for(auto*c:conj)if(isc(c)&&!c->val)return 0;
  flush_constraints();
  u64 t0=now_us();
  {bool ar=false;for(auto*c:conj)ar|=arith(c);
   static int nolia=getenv("VS_NOLIA")?1:0;
   if(ar&&!zidead&&!nolia){
     if(!zimemo){zimemo=new std::unordered_map<Expr*,Z3_ast>;zibmemo=new std::unordered_map<Expr*,Z3_ast>;zivars=new std::vector<std::pair<Expr*,Z3_ast>>;zidefs=new std::vector<Z3_ast>;zint=Z3_mk_int_sort(zc);}
     if(!zis){zis=Z3_mk_solver(zc);Z3_solver_inc_ref(zc,zis);Z3_params p=Z3_mk_params(zc);Z3_params_inc_ref(zc,p);Z3_params_set_uint(zc,p,Z3_mk_string_symbol(zc,"timeout"),3000);Z3_solver_set_params(zc,zis,p);}
     for(;zisdone<pathc->size();zisdone++){Z3_ast a=zib((*pathc)[zisdone]);if(!a){zidead=true;if(getenv("VS_SLOWQ"))fprintf(stderr,"lia: path constraint op %d of %d/%d not linear\n",(*pathc)[zisdone]->op,(*pathc)[zisdone]->a?(*pathc)[zisdone]->a->op:-1,(*pathc)[zisdone]->b?(*pathc)[zisdone]->b->op:-1);break;}Z3_solver_assert(zc,zis,a);}
     std::vector<Z3_ast>cz;bool ok=!zidead;for(auto*c:conj)if(ok){Z3_ast a=zib(c);if(!a){ok=false;if(getenv("VS_SLOWQ")){fprintf(stderr,"lia: query op %d not linear\n",c->op);dump(c,0);}}else cz.push_back(a);}
     for(;zidefdone<zidefs->size();zidefdone++)Z3_solver_assert(zc,zis,(*zidefs)[zidefdone]);
     if(ok){
       Z3_solver_push(zc,zis);for(auto a:cz)Z3_solver_assert(zc,zis,a);
       Z3_lbool r=Z3_solver_check(zc,zis);
       if(r==Z3_L_TRUE&&model){Z3_model m=Z3_solver_get_model(zc,zis);Z3_model_inc_ref(zc,m);*model=*curin;model->resize(std::max(model->size(),vars->size()));
         for(auto&v:*zivars){Z3_ast x=nullptr;int64_t y=0;if(Z3_model_eval(zc,m,v.second,false,&x)&&x&&Z3_get_ast_kind(zc,x)==Z3_NUMERAL_AST&&Z3_get_numeral_int64(zc,x,&y))(*model)[(size_t)v.first->aux]=((u64)y-(*varoff)[(size_t)v.first->aux])&(u64)mask(v.first->w);}
         Z3_model_dec_ref(zc,m);}
       Z3_solver_pop(zc,zis,1);
       if(r!=Z3_L_UNDEF){st.queries++;if(r==Z3_L_TRUE)st.sat++;else st.unsat++;st.solver_us+=now_us()-t0;return r==Z3_L_TRUE;}
     }
   }}
  std::vector<Z3_ast>cz;for(auto*c:conj)cz.push_back(zbool(c));
  if(usesfp&&!zs_fp)flush_constraints();
  Z3_solver_push(zc,zs);
  for(auto a:cz)Z3_solver_assert(zc,zs,a);
  Z3_lbool r=Z3_solver_check(zc,zs);st.queries++;
  int res=r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1;
  if(res==1){
    st.sat++;
    if(model){
      Z3_model m=Z3_solver_get_model(zc,zs);Z3_model_inc_ref(zc,m);*model=*curin;
      model->resize(std::max(model->size(),vars->size()));
      for(size_t i=0;i<vars->size();i++){Z3_ast v=nullptr;
        if((*vars)[i]&&Z3_model_eval(zc,m,zx((*vars)[i]),false,&v)&&v&&Z3_get_ast_kind(zc,v)==Z3_NUMERAL_AST){u64 x=0;uint64_t y=0;if(Z3_get_numeral_uint64(zc,v,&y))x=y;(*model)[i]=(x-(*varoff)[i])&(u64)mask((*vars)[i]->w);}}
      Z3_model_dec_ref(zc,m);
    }
  } else if(res==0)st.unsat++; else {
    st.unk++;
    // last resort: fresh solver on the full conjunction
    Z3_solver s2=Z3_mk_solver_for_logic(zc,Z3_mk_string_symbol(zc,usesfp?"QF_FPBV":"QF_BV"));Z3_solver_inc_ref(zc,s2);
    Z3_params p=Z3_mk_params(zc);Z3_params_inc_ref(zc,p);Z3_params_set_uint(zc,p,Z3_mk_string_symbol(zc,"timeout"),solver_timeout*2);Z3_solver_set_params(zc,s2,p);
    Z3_ast_vector av=Z3_solver_get_assertions(zc,zs);Z3_ast_vector_inc_ref(zc,av);for(unsigned i=0;i<Z3_ast_vector_size(zc,av);i++)Z3_solver_assert(zc,s2,Z3_ast_vector_get(zc,av,i));
    r=Z3_solver_check(zc,s2);
    if(r==Z3_L_FALSE){st.unk--;st.unsat++;res=0;}
    else if(r==Z3_L_TRUE){st.unk--;st.sat++;res=1;if(model){Z3_model m=Z3_solver_get_model(zc,s2);Z3_model_inc_ref(zc,m);*model=*curin;model->resize(std::max(model->size(),vars->size()));
      for(size_t i=0;i<vars->size();i++){Z3_ast v=nullptr;if((*vars)[i]&&Z3_model_eval(zc,m,zx((*vars)[i]),false,&v)&&v&&Z3_get_ast_kind(zc,v)==Z3_NUMERAL_AST){uint64_t y=0;if(Z3_get_numeral_uint64(zc,v,&y))(*model)[i]=(y-(*varoff)[i])&(u64)mask((*vars)[i]->w);}}}}
    else incomplete=1;
  }
  Z3_solver_pop(zc,zs,1);
  u64 dt=now_us()-t0;st.solver_us+=dt;
  if(dt>100000&&getenv("VS_SLOWQ")){char b[200];snprintf(b,200,"vsym: slow query %.2fs fp=%d res=%d ev=%llu at %s\n",dt/1e6,usesfp,res,(unsigned long long)evidx,cur_what?cur_what:"branch");if(write(2,b,strlen(b))){} if(*getenv("VS_SLOWQ")==50){void*bt[30];int n=backtrace(bt,30);backtrace_symbols_fd(bt,n,2);}
    static int dn=0; if(*getenv("VS_SLOWQ")==50&&dn++<2){Z3_ast_vector av=Z3_solver_get_assertions(zc,zs);FILE*f=fopen("/tmp/slowq.smt2","w");for(auto*c:conj)fprintf(f,"(assert %s)\n",Z3_ast_to_string(zc,zbool(c)));if(f)fclose(f);(void)av;}}
  return res;
}
static u64 mix(u64 h,u64 x){h^=x+0x9E3779B97F4A7C15ULL+(h<<6)+(h>>2);h*=0xff51afd7ed558ccdULL;return h^(h>>31);}
static void emit_input(const std::vector<u64>&in,u64 bound,u64 hash,const std::vector<u64>*excl){
  *out+="N ";*out+=std::to_string(bound);*out+=' ';*out+=std::to_string(hash);*out+=' ';*out+=inputs_str(in);*out+=' ';
  if(excl)*out+=inputs_str(*excl);else *out+="0";*out+='\n';
  if(out->size()>32768)flush_out();
}
static void trace(const char*k,Expr*e,u64 v){ static int on=getenv("VS_TRACE")?1:0; if(on)fprintf(stderr,"[%d] ev=%llu %s expr=%u op=%d val=%llu take=%llu hash=%llx bound=%llu\n",getpid(),(unsigned long long)evidx,k,e->id,e->op,(unsigned long long)e->val,(unsigned long long)v,(unsigned long long)evhash,(unsigned long long)item->bound);}
static void check_prefix(){ if(evidx==item->bound&&item->bound&&evhash!=item->hash)engine_error("divergence: replayed prefix took another path"); }
static bool lookup_known(Expr*c,bool&v){Expr*k=c;bool neg=false;if(k->op==OP_XOR&&k->w==1&&isc(k->b)){k=k->a;neg=true;}auto it=known->find(k);if(it==known->end())return false;v=it->second^neg;return true;}
static void branch_event(Expr*c,bool taken){
  if(isc(c)){st.folded++;return;}
  if((bool)(c->val&1)!=taken)engine_error("encoding disagrees with the native branch");
  bool kv;if(lookup_known(c,kv)){return;}
  check_prefix();
  st.events++;
  if(evidx>=item->bound){
    std::vector<u64>m;std::vector<Expr*>q{taken?bnot(c):c};
    int r=query(q,&m);
    if(r==1)emit_input(m,evidx+1,mix(evhash,!taken),nullptr);
  }
  trace("branch",c,taken);
  addc(c,taken);evhash=mix(evhash,taken);evidx++;
}
static void pin_expr(Expr*e,const char*why){
  if(!e||e->pinned||isc(e))return;
  if(e->w>64){Expr*bv=toBV(e);pin_expr(mk(OP_EXTRACT,64,bv,0,0,0),why);pin_expr(mk(OP_EXTRACT,bv->w-64,bv,0,0,64),why);e->pinned=1;return;}
  Expr*bv=toBV(e);
  if(e->fp&&e->dn)bv=e->dn; // pin the integer behind it (same information up to the sign of zero)
  if(isc(bv)){e->pinned=1;return;}
  check_prefix();st.events++;st.pins++;if(why)pinset->insert(why);
  u64 v=(u64)bv->val;
  Expr*eq=mk(OP_EQ,1,bv,cst(v,bv->w));
  bool kv;if(isc(eq)||(lookup_known(eq,kv)&&kv)){e->pinned=1;bv->pinned=1;return;}
  if(evidx>=item->bound){
    std::vector<u64>ex;if(evidx==item->bound)ex=item->excl;
    std::vector<Expr*>q{bnot(eq)};for(u64 x:ex)q.push_back(bnot(mk(OP_EQ,1,bv,cst(x,bv->w))));
    std::vector<u64>m;
    if(ex.size()>=opt_pinmax){incomplete=1;}
    else{int r=query(q,&m);if(r==1){ex.push_back(v);emit_input(m,evidx,evhash,&ex);}}
  }
  trace(why?why:"pin",bv,v);
  addc(eq,true);evhash=mix(evhash,v*2+1);evidx++;
  e->pinned=1;bv->pinned=1;
  // pinning an affine chain pins its root
  Expr*k=bv;while(k&&!isc(k)){if((k->op==OP_ADD||k->op==OP_XOR)&&isc(k->b))k=k->a;else if(k->op==OP_ZEXT||k->op==OP_SEXT)k=k->a;else break;k->pinned=1;}
}

// ---------------------------------------------------------------- shadow memory
struct Page{Expr*b[4096];};
static std::unordered_map<u64,Page*>*pages;static u64 lastpn=~0ULL;static Page*lastpg;
static u8*pagebloom; // 64K bloom on page number
static inline Page*page(u64 pn){ if(pn==lastpn)return lastpg; if(!pagebloom[pn&0xffff])return nullptr; auto it=pages->find(pn);Page*p=it==pages->end()?nullptr:it->second;lastpn=pn;lastpg=p;return p;}
static Page*mkpage(u64 pn){Page*p=page(pn);if(p)return p;p=(Page*)mmap(0,sizeof(Page),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);ENTER;(*pages)[pn]=p;pagebloom[pn&0xffff]=1;lastpn=pn;lastpg=p;return p;}
static inline Expr*getb(u64 a){Page*p=page(a>>12);return p?p->b[a&4095]:nullptr;}
static inline void setb(u64 a,Expr*e){if(!e){Page*p=page(a>>12);if(p)p->b[a&4095]=nullptr;return;}mkpage(a>>12)->b[a&4095]=e;}
static void shadow_clear(u64 a,u64 n){
  u64 e=a+n;while(a<e){u64 pe=std::min(e,((a>>12)+1)<<12);Page*p=page(a>>12);if(p)memset(&p->b[a&4095],0,(pe-a)*8);a=pe;}
}
static bool has_shadow(u64 a,u64 n){
  u64 e=a+n;while(a<e){u64 pe=std::min(e,((a>>12)+1)<<12);Page*p=page(a>>12);if(p)for(u64 x=a;x<pe;x++)if(live(p->b[x&4095]))return true;a=pe;}return false;
}
static Expr*readmem(u64 a,int n,u128 conc){ // BV expr or null
  bool any=false;Expr*bs[16];
  for(int i=0;i<n;i++){Expr*x=getb(a+i);bs[i]=live(x);if(bs[i])any=true;}
  if(!any)return nullptr;
  for(int i=0;i<n;i++)if(bs[i]&&(u8)bs[i]->val!=(u8)(conc>>(8*i))){st.stale++;bs[i]=nullptr;setb(a+i,nullptr);}
  Expr*r=nullptr;
  for(int i=n-1;i>=0;i--){Expr*x=bs[i]?bs[i]:cst((u8)(conc>>(8*i)),8);r=r?mk(OP_CONCAT,r->w+8,r,x):x;}
  if(r->op==OP_EXTRACT)r=mk(OP_EXTRACT,r->w,r->a,0,0,r->aux);
  return live(r);
}
static void writemem(u64 a,int n,Expr*e){ // e BV of width 8n
  // bytes refer to the whole word, so that reading it back gives the same term
  bool raw=n>1&&e->op!=OP_CONCAT&&e->op!=OP_ZEXT&&e->op!=OP_EXTRACT&&!isc(e);
  for(int i=0;i<n;i++)setb(a+i,raw?intern(OP_EXTRACT,8,e,0,0,8*i,0):live(mk(OP_EXTRACT,8,e,0,0,8*i)));
}
static inline void memcheck(u64 a,u64 n,const char*fn,const char*what){
  if(in_arena(a)&&n){
    u8*s=(u8*)(a-ARENA+ASTATE);
    if(s[0]!=1||s[n-1]!=1){char b[300];snprintf(b,300,"heap %s %s of %llu bytes in %s",s[0]==2||s[n-1]==2?"use after free:":"out of bounds:",what,(unsigned long long)n,fn);report_violation("memory",b);}
  } else if(a<65536&&n){char b[300];snprintf(b,300,"null pointer %s in %s",what,fn);report_violation("memory",b);}
}
extern char __executable_start,_end;
static u64 stack_hi;
static bool mem_valid(u64 a,u64 n){
  if(in_arena(a)){u8*s=(u8*)(a-ARENA+ASTATE);for(u64 i=0;i<n;i++)if(s[i]!=1)return false;return true;}
  if(a>=(u64)&__executable_start&&a+n<=(u64)&_end)return true;
  u64 sp=(u64)__builtin_frame_address(0);if(a>=sp&&a+n<=stack_hi)return true;
  return false;
}
static u64 gcd64(u64 a,u64 b){while(b){u64 t=a%b;a=b;b=t;}return a;}
static u64 stride_of(Expr*e){ // values differ by multiples of this (0: constant)
  if(isc(e)||e->pinned)return 0;
  switch(e->op){
    case OP_MUL:if(isc(e->b)){u64 s=stride_of(e->a);return s?s*(u64)e->b->val:0;}return 1;
    case OP_SHL:if(isc(e->b)&&e->b->val<32){u64 s=stride_of(e->a);return s?s<<(unsigned)e->b->val:0;}return 1;
    case OP_ADD:return gcd64(stride_of(e->a),stride_of(e->b));
    case OP_SUB:return gcd64(stride_of(e->a),stride_of(e->b));
    case OP_ZEXT:case OP_SEXT:return stride_of(e->a);
    case OP_ITE:{u64 d=(u64)(e->b->val>e->c->val?e->b->val-e->c->val:e->c->val-e->b->val);return gcd64(gcd64(stride_of(e->b),stride_of(e->c)),d);}
  }
  return 1;
}
static u64 opt_itemax=128;
static void leafvals(Expr*e,std::set<u64>&o,int d,bool&ok){
  if(!ok)return; if(isc(e)||e->pinned){o.insert((u64)e->val);if(o.size()>64)ok=false;return;}
  if(e->op==OP_ITE&&d<64){leafvals(e->b,o,d+1,ok);leafvals(e->c,o,d+1,ok);return;}
  ok=false;
}

extern "C" {
Expr*vs_params[64];Expr*vs_rets[16];void*vs_byval[64];void*vs_callee;void*vs_retfn;uint32_t vs_nparams;
static Expr*nullarr[64];
static std::unordered_map<void*,const char*>*reg;
struct RegE{void*f;const char*n;};
void vs_register(RegE*a,u64 n){ENTER;if(!reg)reg=new std::unordered_map<void*,const char*>;for(u64 i=0;i<n;i++)(*reg)[a[i].f]=a[i].n;}
static inline void notefn(const char*f){static const char*last=nullptr;if(f==last)return;last=f;ENTER;fnset->insert(f);}
void*vs_enter(void*fn,const char*name){
  if(!active)return nullarr;
  if(vs_callee==fn){vs_callee=nullptr;
    for(uint32_t i=0;i<vs_nparams;i++)if(live(vs_params[i])){notefn(name);break;}
    return vs_params;}
  return nullarr;
}
void*vs_getret(void*fn){ if(!active)return nullarr; if(vs_retfn==fn)return vs_rets; return nullarr; }
void vs_shadow_copy(void*d,void*s,size_t n){
  u64 D=(u64)d,S=(u64)s;
  if(!has_shadow(S,n)){shadow_clear(D,n);return;}
  ENTER;std::vector<Expr*>t(n);for(size_t i=0;i<n;i++){Expr*e=live(getb(S+i));if(e&&(u8)e->val!=((u8*)s)[i]){st.stale++;e=nullptr;}t[i]=e;}
  for(size_t i=0;i<n;i++)setb(D+i,t[i]);
}
void vs_byvalcopy(void*dst,void*src,u64 n,void*pp){
  if(!active)return; if(pp==vs_params&&src&&src!=dst)vs_shadow_copy(dst,src,n); else shadow_clear((u64)dst,n);
}
void vs_clear(void*p,u64 n){if(!active)return;shadow_clear((u64)p,n);}
void vs_atomic(void*p,u64 n){if(!active)return;memcheck((u64)p,n,"atomic","access");Expr*e;{ENTER;u64 v=0;memcpy(&v,p,n);e=readmem((u64)p,(int)n,v);if(e)pin_expr(e,"atomic");}shadow_clear((u64)p,n);}

Expr*vs_bin(uint32_t op,uint32_t w,Expr*e1,u64 v1,Expr*e2,u64 v2){
  if(!e1&&!e2)return nullptr;
  e1=live(e1);e2=live(e2);if(!e1&&!e2)return nullptr;
  ENTER;
  bool f=op>=OP_FADD;
  if(f){
    Expr*a=e1?toFP(e1,w):fcst(v1,w),*b=e2?toFP(e2,w):fcst(v2,w);
    if(op==OP_POW||op==OP_ATAN2||op==OP_FREM||op==OP_FCOPYSIGN){
      if(op==OP_POW&&isc(b)){double p=w==64?asd(b->val):asf(b->val);if(p==1.0)return live(a);if(p==2.0&&w==64&&a->dn)return live(mkfp(OP_FMUL,w,a,a));}
      if(op==OP_FCOPYSIGN){Expr*x=toBV(a),*y=toBV(b);Expr*s=mk(OP_AND,w,y,cst((u128)1<<(w-1),w));return live(mkfp(OP_FFROM,w,mk(OP_OR,w,mk(OP_AND,w,x,cst(mask(w-1),w)),s)));}
      pin_expr(e1,"libm");pin_expr(e2,"libm");return nullptr;}
    Expr*r=op>=OP_FCMP?mk(op,1,a,b):mkfp(op,w,a,b);
    return live(r);
  }
  Expr*a=e1?toBV(e1):cst(v1,w),*b=e2?toBV(e2):cst(v2,w);
  int rw=(op>=OP_EQ&&op<=OP_SGE)||(op>=OP_UADDO&&op<=OP_SMULO)?1:w;
  if((op==OP_UDIV||op==OP_SDIV||op==OP_UREM||op==OP_SREM)&&e2){
    Expr*z=mk(OP_EQ,1,b,cst(0,w)); if(!isc(z)){ if(z->val)report_violation("crash","division by zero"); branch_event(z,false);} }
  return live(mk(op,rw,a,b));
}
Expr*vs_bin128(uint32_t op,uint32_t w,Expr*e1,u64 l1,u64 h1,Expr*e2,u64 l2,u64 h2){
  e1=live(e1);e2=live(e2);if(!e1&&!e2)return nullptr;ENTER;
  Expr*a=e1?e1:cst(((u128)h1<<64)|l1,w),*b=e2?e2:cst(((u128)h2<<64)|l2,w);
  int rw=(op>=OP_EQ&&op<=OP_SGE)?1:w;return live(mk(op,rw,a,b));
}
static Expr*apply1(int op,int w,Expr*a){ // unary libm on FP expr
  if(isc(a))return fcst(w==64?bd(fun1(op,asd(a->val))):bf(fun1f(op,asf(a->val))),w);
  if(a->dn){
    Expr*n=a->dn;
    if(n->shi-n->slo<4096&&n->shi>=n->slo){
      auto*t=new std::vector<std::pair<i64,u64>>;
      for(i64 k=n->slo;k<=n->shi;k++){double x=ldexp((double)k,-a->dsc);t->push_back({k,w==64?bd(fun1(op,x)):bf(fun1f(op,(float)x))});}
      return intern(OP_FTABLE,w,n,0,0,(u64)op,w,0,t);
    }
  }
  if(a->op==OP_ITE){
    Expr*x=apply1(op,w,a->b);if(!x)return nullptr;Expr*y=apply1(op,w,a->c);if(!y)return nullptr;
    return mk(OP_ITE,w,a->a,x,y,0,w);
  }
  return nullptr;
}
Expr*vs_un(uint32_t op,uint32_t w,uint32_t w2,Expr*e){
  if(!e)return nullptr;e=live(e);if(!e)return nullptr;ENTER;
  switch(op){
    case OP_TRUNC:return live(mk(OP_EXTRACT,w2,toBV(e),0,0,0));
    case OP_ZEXT:return live(mk(OP_ZEXT,w2,toBV(e)));case OP_SEXT:return live(mk(OP_SEXT,w2,toBV(e)));
    case OP_ZEXTTRUNC:e=toBV(e);return live(w2<e->w?mk(OP_EXTRACT,w2,e,0,0,0):mk(OP_ZEXT,w2,e));
    case OP_BITCAST:return live(toBV(e));
    case OP_FPCONV:return live(mkfp(OP_FPCONV,w2,toFP(e,w)));
    case OP_FPTOSI:case OP_FPTOUI:return live(mk(op,w2,toFP(e,w)));
    case OP_SITOFP:case OP_UITOFP:return live(mkfp(op,w2,toBV(e)));
    case OP_FNEG:case OP_FABS:case OP_FSQRT:case OP_FFLOOR:case OP_FCEIL:case OP_FTRUNC:case OP_FRINT:case OP_FROUND:{
      Expr*a=toFP(e,w);
      if(op==OP_FSQRT||((op==OP_FRINT||op==OP_FROUND)&&a->dn&&a->dsc)){Expr*r=apply1(op,w,a);if(r)return live(r);}
      if((op==OP_FRINT||op==OP_FROUND)&&a->dn&&!a->dsc)return live(a);
      return live(mkfp(op,w,a));}
    case OP_ABS:{Expr*a=toBV(e);return live(mk(OP_ITE,w,mk(OP_SLT,1,a,cst(0,w)),mk(OP_SUB,w,cst(0,w),a),a));}
    case OP_BSWAP:{Expr*a=toBV(e);Expr*r=nullptr;for(unsigned i=0;i<w;i+=8){Expr*x=mk(OP_EXTRACT,8,a,0,0,i);r=r?mk(OP_CONCAT,r->w+8,r,x):x;}return live(r);}
    case OP_BITREV:{Expr*a=toBV(e);Expr*r=nullptr;for(unsigned i=0;i<w;i++){Expr*x=mk(OP_EXTRACT,1,a,0,0,i);r=r?mk(OP_CONCAT,r->w+1,r,x):x;}return live(r);}
    case OP_CTPOP:{Expr*a=toBV(e);Expr*r=cst(0,w);for(unsigned i=0;i<w;i++)r=mk(OP_ADD,w,r,mk(OP_ZEXT,w,mk(OP_EXTRACT,1,a,0,0,i)));return live(r);}
    case OP_CTLZ:{Expr*a=toBV(e);Expr*r=cst(w,w);for(unsigned i=0;i<w;i++)r=mk(OP_ITE,w,mk(OP_EXTRACT,1,a,0,0,i),cst(w-1-i,w),r);return live(r);}
    case OP_CTTZ:{Expr*a=toBV(e);Expr*r=cst(w,w);for(int i=w-1;i>=0;i--)r=mk(OP_ITE,w,mk(OP_EXTRACT,1,a,0,0,i),cst(i,w),r);return live(r);}
  }
  if(transc(op)){Expr*r=apply1(op,w,toFP(e,w));if(r)return live(r);pin_expr(e,"libm");return nullptr;}
  pin_expr(e,"un?");return nullptr;
}
Expr*vs_select(uint32_t w,Expr*ec,uint32_t c,Expr*e1,u64 v1,Expr*e2,u64 v2){
  ec=live(ec);e1=live(e1);e2=live(e2);
  if(!ec)return c?e1:e2;
  if(!active)return nullptr;
  ENTER;bool fp=(e1&&e1->fp)||(e2&&e2->fp);
  ec=toBV(ec);
  if((bool)ec->val!=(bool)c)engine_error("encoding disagrees with the native select");
  Expr*a,*b;
  if(fp){a=e1?toFP(e1,w):fcst(v1,w);b=e2?toFP(e2,w):fcst(v2,w);return live(mk(OP_ITE,w,ec,a,b,0,w));}
  a=e1?e1:cst(v1,w);b=e2?e2:cst(v2,w);return live(mk(OP_ITE,w,ec,a,b));
}
Expr*vs_fsh(uint32_t left,uint32_t w,Expr*e1,u64 v1,Expr*e2,u64 v2,Expr*e3,u64 v3){
  e1=live(e1);e2=live(e2);e3=live(e3);if(!e1&&!e2&&!e3)return nullptr;ENTER;
  Expr*a=e1?toBV(e1):cst(v1,w),*b=e2?toBV(e2):cst(v2,w),*c=e3?toBV(e3):cst(v3,w);
  if(isc(c)){unsigned k=(unsigned)(c->val%w);Expr*cc=mk(OP_CONCAT,2*w,a,b);
    if(left)return live(mk(OP_EXTRACT,w,cc,0,0,w-k));return live(mk(OP_EXTRACT,w,cc,0,0,k));}
  Expr*s=mk(OP_UREM,w,c,cst(w,w));Expr*z=mk(OP_EQ,1,s,cst(0,w));Expr*inv=mk(OP_SUB,w,cst(w,w),s);
  if(left)return live(mk(OP_ITE,w,z,a,mk(OP_OR,w,mk(OP_SHL,w,a,s),mk(OP_LSHR,w,b,inv))));
  return live(mk(OP_ITE,w,z,b,mk(OP_OR,w,mk(OP_LSHR,w,b,s),mk(OP_SHL,w,a,inv))));
}
Expr*vs_gep(Expr*eb,u64 vb,Expr*ei,u64 vi,u64 sz,uint32_t iw){
  eb=live(eb);ei=live(ei);if(!eb&&!ei)return nullptr;ENTER;
  Expr*b=eb?toBV(eb):cst(vb,64);Expr*i;
  if(ei){i=toBV(ei);if(i->w<64)i=mk(OP_SEXT,64,i);}else i=cst(vi,64);
  return live(mk(OP_ADD,64,b,mk(OP_MUL,64,i,cst(sz,64))));
}
Expr*vs_load(Expr*ea,u64 addr,uint32_t n,uint32_t w,u64 val,const char*fn){
  if(!active)return nullptr;
  memcheck(addr,n,fn,"read");
  if(ea){ea=live(ea);
    if(ea){ENTER;notefn(fn);
      ea=toBV(ea);
      std::vector<u64>cand;bool ok=false;
      {std::set<u64>lv;bool lo=true;leafvals(ea,lv,0,lo);if(lo){cand.assign(lv.begin(),lv.end());ok=true;}}
      u64 sd=ok?0:stride_of(ea);
      if(!ok&&sd){
        u64 lo=ea->ulo,hi=ea->uhi;
        if(hi>=lo&&(hi-lo)/sd<opt_itemax){ok=true;u64 s=addr-((addr-lo)/sd)*sd;for(u64 x=s;x<=hi&&x>=s;x+=sd)cand.push_back(x);}
      }
      if(ok)for(u64 x:cand)if(!mem_valid(x,n)){ok=false;break;}
      if(ok&&n<=8){
        Expr*r=nullptr;
        for(u64 x:cand){u64 v=0;memcpy(&v,(void*)x,n);Expr*m=readmem(x,n,v);if(!m)m=cst(v,8*n);
          r=r?mk(OP_ITE,8*n,mk(OP_EQ,1,ea,cst(x,64)),m,r):m;}
        if(w<8*n)r=mk(OP_EXTRACT,w,r,0,0,0);
        if((u64)r->val!=(w==64?val:(val&((1ULL<<w)-1))))engine_error("table load mismatch");
        return live(r);
      }
      pin_expr(ea,fn);
    }}
  if(!page(addr>>12)&&(((addr+n-1)>>12)==(addr>>12)||!page((addr+n-1)>>12)))return nullptr;
  ENTER;
  u128 conc=val;if(n==16){u128 t;memcpy(&t,(void*)addr,16);conc=t;}
  Expr*r=readmem(addr,n,conc);if(!r)return nullptr;
  notefn(fn);
  if(w<8*n)r=mk(OP_EXTRACT,w,r,0,0,0);
  return live(r);
}
void vs_store(Expr*ea,u64 addr,uint32_t n,Expr*ev,u64 val,const char*fn){
  if(!active)return;
  memcheck(addr,n,fn,"write");
  if(ea&&live(ea)){ENTER;pin_expr(ea,fn);}
  ev=live(ev);
  if(!ev){shadow_clear(addr,n);return;}
  ENTER;Expr*b=toBV(ev);
  if(n<=8&&(u64)b->val!=(b->w<64?val&((1ULL<<b->w)-1):val)){
    double x=asd((u64)b->val),y=asd(val);float xf=asf((u64)b->val),yf=asf(val);
    bool nan=(n==8&&x!=x&&y!=y)||(n==4&&xf!=xf&&yf!=yf);
    if(ev->fp&&(nan||(n==8&&x==y)||(n==4&&xf==yf))){ if(nan||1){shadow_clear(addr,n); if(!nan)engine_error("fp store mismatch"); return;} }
    else engine_error((std::string("encoding disagrees with the native store in ")+fn).c_str());
  }
  if(b->w<8*n)b=mk(OP_ZEXT,8*n,b);
  writemem(addr,n,b);
}
void vs_branch(Expr*e,uint32_t taken,const char*fn){
  e=live(e);if(!e||!active)return;ENTER;notefn(fn);branch_event(toBV(e),taken&1);
}
void vs_switch(Expr*e,uint32_t w,u64 val,uint32_t n,const u64*cs,const uint32_t*succ,const char*fn){
  e=live(e);if(!e||!active)return;ENTER;notefn(fn);e=toBV(e);
  if((u64)e->val!=val)engine_error("encoding disagrees with the native switch");
  // one decision per distinct successor; the default is the complement
  uint32_t ns=0;for(uint32_t i=0;i<n;i++)ns=std::max(ns,succ[i]);
  uint32_t mine=0;for(uint32_t i=0;i<n;i++)if(cs[i]==val)mine=succ[i];
  for(uint32_t s=1;s<=ns;s++){
    Expr*c=cst(0,1);for(uint32_t i=0;i<n;i++)if(succ[i]==s)c=mk(OP_OR,1,c,mk(OP_EQ,1,e,cst(cs[i],w)));
    branch_event(c,mine==s);
    if(mine==s)break;
  }
}
void vs_memcpy(void*d,Expr*ed,void*s,Expr*es,u64 n,Expr*en,const char*fn){
  if(!active)return;
  if(live(ed)||live(es)||live(en)){ENTER;pin_expr(live(ed),fn);pin_expr(live(es),fn);pin_expr(live(en),fn);}
  if(n){memcheck((u64)s,n,fn,"read");memcheck((u64)d,n,fn,"write");}
  if(n&&d!=s)vs_shadow_copy(d,s,n);
}
void vs_memset(void*d,Expr*ed,uint32_t c,Expr*ec,u64 n,Expr*en,const char*fn){
  if(!active)return;
  if(live(ed)||live(en)){ENTER;pin_expr(live(ed),fn);pin_expr(live(en),fn);}
  if(n)memcheck((u64)d,n,fn,"write");
  ec=live(ec);if(!ec){shadow_clear((u64)d,n);return;}
  ENTER;Expr*b=mk(OP_EXTRACT,8,toBV(ec),0,0,0);for(u64 i=0;i<n;i++)setb((u64)d+i,live(b));
}
void vs_pin(Expr*e,const char*why){e=live(e);if(!e||!active)return;ENTER;pin_expr(e,why);}
// a mapping that goes away takes its shadow with it
extern "C" int munmap(void*a,size_t n){if(active)shadow_clear((u64)a,n);return (int)syscall(SYS_munmap,a,n);}
static bool safe_ext(const char*n){
  static const char*pre[]={"_Zd","_Zn","__cxa_","_ZSt18_Rb_tree","_ZSt28_Rb_tree","_ZSt29_Rb_tree","_ZNSt8__detail15_List_node","_ZNKSt8__detail20_Prime","_Unwind","__gxx","__clang","_ZNSt8__detail","_ZSt20__throw","_ZSt17__throw","_ZSt24__throw","_ZSt2","_ZNSt6localeC","_ZNSt6localeD","_ZNSt8ios_base","_ZN5boost7archive6detail14basic_oarchive","_ZN5boost7archive6detail14basic_iarchive","_ZN5boost7archive23basic_binary_oprimitive","_ZN5boost7archive23basic_binary_iprimitive","_ZN5boost7archive17basic_binary_",0}; // the archives only dispatch: data moves in templates compiled with the harness
  static const char*ex[]={"malloc","free","calloc","realloc","abort","exit","__assert_fail","vs_exit","pthread_mutex_lock","pthread_mutex_unlock","__errno_location","__cxa_atexit","msync","munmap","madvise","mprotect","mmap","mmap64","close","fsync","fdatasync","ftruncate","ftruncate64","sysconf","getpagesize",0};
  for(int i=0;pre[i];i++)if(!strncmp(n,pre[i],strlen(pre[i])))return true;
  for(int i=0;ex[i];i++)if(!strcmp(n,ex[i]))return true;
  return false;
}
static void pin_mem(u64 a,u64 n,const char*nm){
  for(u64 x=a;x<a+n;x++){
    if(in_arena(x)&&((u8*)(x-ARENA+ASTATE))[0]!=1)break;
    if(!page(x>>12)){u64 nx=((x>>12)+1)<<12;
      if(in_arena(x)){bool done=false;for(u64 y=x;y<nx&&y<a+n;y++)if(((u8*)(y-ARENA+ASTATE))[0]!=1){done=true;break;}if(done)break;}
      x=nx-1;continue;}
    Expr*e=live(getb(x));if(e){if((u8)e->val!=*(u8*)x){st.stale++;setb(x,nullptr);continue;}
      // whole expression behind an extract, when there is one
      pin_expr(e,nm);}
  }
}
void vs_precall(void*fp,const char*name,void*p0,void*p1,void*p2){
  if(!active)return;
  if(reg->count(fp))return;
  bool any=false;for(uint32_t i=0;i<vs_nparams;i++)if(live(vs_params[i]))any=true;
  if(any){ENTER;Expr*ps[64];uint32_t k=vs_nparams;memcpy(ps,vs_params,sizeof ps);
    const char*nm=name;if(!nm){Dl_info di;nm=dladdr(fp,&di)&&di.dli_sname?di.dli_sname:"<indirect>";}
    for(uint32_t i=0;i<k;i++)if(live(ps[i]))pin_expr(ps[i],nm);}
  if(name&&safe_ext(name))return;
  void*ps[3]={p0,p1,p2};
  for(int i=0;i<3;i++){
    u64 a=(u64)ps[i];if(a<65536)continue;
    bool l=has_shadow(a,64);
    if(!l&&mem_valid(a,8))for(int j=0;j<8&&!l;j++){ if(!mem_valid(a+8*j,8))break; u64 q=*(u64*)(a+8*j);if(in_arena(q)&&mem_valid(q,1)&&has_shadow(q,48))l=true;}
    if(l){ENTER;const char*nm=name;if(!nm){Dl_info di;nm=dladdr(fp,&di)&&di.dli_sname?di.dli_sname:"<indirect>";}leakset->insert(nm);if(getenv("VS_BT")&&strstr(nm,getenv("VS_BT"))){void*bt[40];int n=backtrace(bt,40);backtrace_symbols_fd(bt,n,2);}
      // the callee is outside the encoding: make what it can see concrete
      pin_mem(a,4096,nm);
      for(int j=0;j<8;j++){ if(!mem_valid(a+8*j,8))break; u64 q=*(u64*)(a+8*j);if(in_arena(q)&&mem_valid(q,1))pin_mem(q,4096,nm);}
    }
  }
}
// ---------------------------------------------------------------- harness API
static u64 var_value(u64 dflt){ if(curin->size()<vars->size()+1)curin->resize(vars->size()+1,dflt); else return (*curin)[vars->size()];return dflt; }
static int replay_n=0;
static Expr*newvar(int w,u64 dflt,i64 slo,i64 shi,u64 ulo,u64 uhi,u64&v,u64 off=0){
  size_t i=vars->size();
  if(i>=curin->size())curin->push_back(dflt);
  v=(*curin)[i]&(u64)mask(w);if(!varoff)varoff=new std::vector<u64>;varoff->resize(i+1);(*varoff)[i]=off;
  if(concrete_mode){vars->push_back(nullptr);return nullptr;}
  Expr*e=intern(OP_VAR,w,0,0,0,i,0,(v+off)&(u64)mask(w));
  e->slo=slo;e->shi=shi;e->ulo=ulo;e->uhi=uhi;vars->push_back(e);return e;
}
#define RET(e,f) do{vs_rets[0]=(e);vs_retfn=(void*)(f);}while(0)
int64_t vs_int(const char*name,int64_t lo,int64_t hi){
  ENTER;if(lo==hi){RET(nullptr,vs_int);return lo;}
  // a signed variable of the smallest width that holds lo..hi; the input is its distance from lo
  u64 span=(u64)hi-(u64)lo;int w=1;while(w<64&&!(lo>=-(i64)(1ULL<<(w-1))&&hi<=(i64)((1ULL<<(w-1))-1)))w++;
  u64 v;i64 d=(lo<=0&&hi>=0)?-lo:0;
  Expr*u=newvar(w,(u64)d,lo,hi,lo>=0?(u64)lo:0,lo>=0?(u64)hi:(u64)mask(w),v,(u64)lo);
  Expr*r=nullptr;
  if(u){
    // bounds of the variable: stated to the solver, known to the simplifier
    if(w<64?lo!=-(i64)(1ULL<<(w-1)):lo!=INT64_MIN)addc(intern(OP_SLE,1,cst((u128)(i128)lo,w),u,0,0,0),true);
    if(w<64?hi!=(i64)((1ULL<<(w-1))-1):hi!=INT64_MAX)addc(intern(OP_SLE,1,u,cst((u128)(i128)hi,w),0,0,0),true);
    r=mk(OP_SEXT,64,u);
  }
  if(v>span)v=span;
  RET(live(r),vs_int);return (i64)((u64)lo+v);
}
uint64_t vs_uint(const char*name,uint64_t lo,uint64_t hi){
  ENTER;if(lo==hi){RET(nullptr,vs_uint);return lo;}
  u64 span=hi-lo;int w=1;while(w<64&&span>>w)w++;u64 v;
  Expr*u=newvar(w,0,w<64?-(i64)(1ULL<<(w-1)):INT64_MIN,w<64?(i64)((1ULL<<(w-1))-1):INT64_MAX,0,span,v);Expr*r=nullptr;
  if(u){if(span!=(u64)mask(w))addc(intern(OP_ULE,1,u,cst(span,w),0,0,0),true);Expr*z=mk(OP_ZEXT,64,u);r=lo?mk(OP_ADD,64,z,cst(lo,64)):z;}
  if(v>span)v=span;
  RET(live(r),vs_uint);return lo+v;
}
double vs_fix(const char*name,int64_t lo,int64_t hi,int scale){
  i64 n=vs_int(name,lo,hi);ENTER;Expr*e=vs_rets[0];double d=ldexp((double)n,-scale);
  Expr*r=nullptr;if(live(e)){Expr*m=narrowS(e);r=viewexpr(m,scale,64);}
  RET(live(r),vs_fix);return d;
}
double vs_double(const char*name){ENTER;u64 v;Expr*u=newvar(64,0,INT64_MIN,INT64_MAX,0,~0ULL,v);RET(u?live(mkfp(OP_FFROM,64,u)):nullptr,vs_double);return asd(v);}
float vs_float(const char*name){ENTER;u64 v;Expr*u=newvar(32,0,INT32_MIN,INT32_MAX,0,0xffffffffULL,v);RET(u?live(mkfp(OP_FFROM,32,u)):nullptr,vs_float);return asf(v);}
void vs_bytes(const char*name,void*p,size_t n){ENTER;for(size_t i=0;i<n;i++){u64 v;Expr*u=newvar(8,0,-128,127,0,255,v);((u8*)p)[i]=(u8)v;setb((u64)p+i,u);}vs_retfn=nullptr;}
int64_t vs_concrete(int64_t v){ENTER;if(active&&!concrete_mode&&vs_callee==(void*)vs_concrete){Expr*e=live(vs_params[0]);pin_expr(e,"harness");}vs_callee=nullptr;RET(nullptr,vs_concrete);return v;}
int vs_choice(const char*name,int n){i64 v=vs_int(name,0,n-1);ENTER;Expr*e=live(vs_rets[0]);if(e)pin_expr(e,"harness");RET(nullptr,vs_choice);return (int)v;}
static Expr*cond1(Expr*e){e=toBV(e);return e->w==1?e:bnot(mk(OP_EQ,1,e,cst(0,e->w)));}
void vs_assume(int c){
  ENTER;Expr*e=(vs_callee==(void*)vs_assume)?live(vs_params[0]):nullptr;vs_callee=nullptr;vs_retfn=nullptr;st.assumes++;
  if(concrete_mode){if(!c)finish("assume");return;}
  if(e)e=cond1(e);
  if(!e||isc(e)){if(!c)finish("assume");return;}
  bool kv;if(lookup_known(e,kv)){if(!kv)finish("assume");return;}
  if(c){check_prefix();addc(e,true);return;}
  check_prefix();
  std::vector<u64>m;int r=query({e},&m);
  if(r==1){std::vector<u64>ex;if(evidx==item->bound)ex=item->excl;emit_input(m,evidx,evhash,&ex);}
  finish("assume");
}
void vs_assert_(int c,const char*msg){
  ENTER;Expr*e=(vs_callee==(void*)vs_assert_)?live(vs_params[0]):nullptr;vs_callee=nullptr;vs_retfn=nullptr;st.asserts++;
  reached->insert(std::string("assert:")+msg);
  if(concrete_mode){if(!c){emit_violation("assert",*curin,msg);finish("violation");}return;}
  if(e)e=cond1(e);
  if(!e||isc(e)){if(!c){emit_violation("assert",*curin,msg);finish("violation");}return;}
  if((bool)e->val!=(bool)c)engine_error("encoding disagrees with the native assertion value");
  bool kv;if(lookup_known(e,kv)&&kv)return;
  st.asserts_sym++;
  check_prefix();st.events++;
  if(c){
    // (a proved assertion is implied by the path: it is remembered but not given to the solver again)
    if(evidx>=item->bound){cur_what=msg;std::vector<u64>m;int r=query({bnot(e)},&m);cur_what=nullptr;if(r==1){emit_violation("assert",m,msg);}}
    addc(e,true);pend->pop_back();evhash=mix(evhash,1);evidx++;
  } else {
    emit_violation("assert",*curin,msg);
    if(evidx>=item->bound){std::vector<u64>m;int r=query({e},&m);if(r==1)emit_input(m,evidx+1,mix(evhash,1),nullptr);}
    finish("violation");
  }
}
void vs_fail(const char*msg){ENTER;vs_retfn=nullptr;emit_violation("assert",*curin,msg);finish("violation");}
void vs_reach(const char*l){ENTER;vs_retfn=nullptr;reached->insert(l);}
void vs_allow_abort(int on){allow_abort=on;vs_retfn=nullptr;}
int vs_is_symbolic(void){vs_retfn=nullptr;return !concrete_mode;}
void vs_stop(void){ENTER;finish("stop");}
void vs_note(const char*k,int64_t v){vs_retfn=nullptr;}
void vs_exit(int c){ENTER;if(allow_abort)finish("exit");char b[64];snprintf(b,64,"exit(%d) called",c);report_violation("crash",b);}
double rt_strtod(const char*s,char**e){return strtod(s,e);}
float rt_strtof(const char*s,char**e){return strtof(s,e);}
} // extern C

// ---------------------------------------------------------------- crash handling
static char assertmsg[400];
extern "C" void __assert_fail(const char*e,const char*f,unsigned l,const char*fn){snprintf(assertmsg,400,"assertion `%s' failed in %s",e,fn);abort();}
static void onsig(int s){
  if(getenv("VS_VBT")){int f=open(getenv("VS_VBT"),O_WRONLY|O_CREAT|O_APPEND,0644);void*bt[40];int n=backtrace(bt,40);backtrace_symbols_fd(bt,n,f);close(f);}
  if(in_rt&&s==SIGSEGV&&!ended){ if(out){*out+="E runtime segv\n";finish("engine-error");}_exit(98);}
  in_rt++;
  if(!out||ended)_exit(97);
  char b[600];
  if(s==SIGABRT){ if(allow_abort)finish("abort"); snprintf(b,600,"abort%s%s",assertmsg[0]?": ":"",assertmsg);}
  else if(s==SIGSEGV)snprintf(b,600,"segmentation fault");else if(s==SIGFPE)snprintf(b,600,"arithmetic exception");else if(s==SIGALRM||s==SIGXCPU)snprintf(b,600,"timeout");else snprintf(b,600,"signal %d",s);
  emit_violation((s==SIGALRM||s==SIGXCPU)?"timeout":"crash",*curin,b);finish("violation");
}
static unsigned path_timeout=120;
static void child(Item&it,int fd,bool conc,bool quiet){
  in_rt++;
  outfd=fd;out=new std::string;item=&it;vars=new std::vector<Expr*>;curin=new std::vector<u64>(it.in);known=new std::unordered_map<Expr*,int>;pend=new std::vector<Expr*>;
  fnset=new std::unordered_set<const char*>;leakset=new std::unordered_set<const char*>;pinset=new std::unordered_set<const char*>;reached=new std::set<std::string>;
  pages=new std::unordered_map<u64,Page*>;pagebloom=(u8*)calloc(65536,1);zboolmemo=new std::unordered_map<Expr*,Z3_ast>;
  concrete_mode=conc;
  static char alt[65536];stack_t ss{};ss.ss_sp=alt;ss.ss_size=sizeof alt;sigaltstack(&ss,0);
  struct sigaction sa{};sa.sa_handler=onsig;sa.sa_flags=SA_ONSTACK|SA_NODEFER;
  int sigs[]={SIGSEGV,SIGBUS,SIGFPE,SIGABRT,SIGILL,SIGALRM};for(int s:sigs)sigaction(s,&sa,0);
  struct rlimit rl;rl.rlim_cur=rl.rlim_max=6ULL<<30; (void)rl;
  alarm(path_timeout);
  if(quiet){int n=open("/dev/null",O_RDWR);dup2(n,0);dup2(n,1);if(!getenv("VS_STDERR"))dup2(n,2);close(n);}
  in_rt=0;active=1;
  stack_hi=(u64)__builtin_frame_address(0);
  const char*why="done";
  try{ vs_harness(); }catch(...){ 
    in_rt++;active=0;std::string m="uncaught exception";
    try{throw;}catch(std::exception&e){m+=std::string(": ")+e.what();}catch(...){}
    if(!allow_abort){for(auto&c:m)if(c=='\n')c=' ';emit_violation("crash",*curin,m.c_str());why="violation";} else why="exception";
    finish(why);}
  finish(why);
}
// ---------------------------------------------------------------- parent
static std::string jesc(const std::string&s){std::string o;for(unsigned char c:s){if(c=='"'||c=='\\'){o+='\\';o+=c;}else if(c<32||c>126){char b[8];snprintf(b,8,"\\u%04x",c);o+=b;}else o+=c;}return o;}
struct Viol{std::string kind,msg;std::vector<u64>in;};
static void*vs_main_sym;
int main(int argc,char**argv){
  in_rt++;
  signal(SIGPIPE,SIG_IGN);
  int J=getenv("VS_JOBS")?atoi(getenv("VS_JOBS")):8;double budget=getenv("VS_TIME")?atof(getenv("VS_TIME")):300;
  u64 maxpaths=getenv("VS_MAXPATHS")?strtoull(getenv("VS_MAXPATHS"),0,10):2000000;
  if(getenv("VS_PATH_TIMEOUT"))path_timeout=atoi(getenv("VS_PATH_TIMEOUT"));
  if(getenv("VS_SOLVER_TIMEOUT"))solver_timeout=atoi(getenv("VS_SOLVER_TIMEOUT"));
  if(getenv("VS_PINMAX"))opt_pinmax=strtoull(getenv("VS_PINMAX"),0,10);
  if(getenv("VS_ITEMAX"))opt_itemax=strtoull(getenv("VS_ITEMAX"),0,10);
  int maxviol=getenv("VS_MAXVIOL")?atoi(getenv("VS_MAXVIOL")):8;
  const char*outf=getenv("VS_OUT");bool quiet=!getenv("VS_NOISY");
  if(!reg)reg=new std::unordered_map<void*,const char*>;
  in_rt=0; if(vs_setup)vs_setup(); in_rt=1;
  z3init();
  if(argc>2&&!strcmp(argv[1],"replay")){ // concrete replay of one input
    Item it;it.bound=0;it.hash=0;for(int i=2;i<argc;i++)it.in.push_back(strtoull(argv[i],0,10));
    child(it,1,true,false);
  }
  double t0=now_us()/1e6;
  std::vector<Item>q;q.push_back(Item{{},0,0,{}});
  struct Run{pid_t pid;int fd;Item it;std::string buf;double start;};
  std::vector<Run>runs;
  u64 paths=0,completed=0,tot[13]={0};std::map<std::string,u64>ends;std::set<std::string>fns,leaks,reach,pins,errs;std::vector<Viol>viols;std::set<std::string>vkeys;
  std::vector<std::vector<u64>>samples;bool stop=false;bool complete=true;u64 maxev=0;u64 nconfirmed=0;
  while((!q.empty()&&!stop)||!runs.empty()){
    while(!stop&&!q.empty()&&(int)runs.size()<J){
      if(paths>=maxpaths||now_us()/1e6-t0>budget){stop=true;complete=false;break;}
      Item it=std::move(q.back());q.pop_back();
      int p[2];if(pipe2(p,O_CLOEXEC)){perror("pipe");return 3;}
      fflush(stdout);fflush(stderr);
      pid_t pid=fork();
      if(pid<0){perror("fork");usleep(100000);q.push_back(it);close(p[0]);close(p[1]);break;}
      if(pid==0){close(p[0]);for(auto&r:runs)close(r.fd);child(it,p[1],false,quiet);}
      close(p[1]);fcntl(p[0],F_SETFL,O_NONBLOCK);paths++;
      runs.push_back(Run{pid,p[0],std::move(it),"",now_us()/1e6});
    }
    if(runs.empty())break;
    std::vector<pollfd>pf;for(auto&r:runs)pf.push_back({r.fd,POLLIN,0});
    poll(pf.data(),pf.size(),200);
    double nw=now_us()/1e6;
    for(size_t i=0;i<runs.size();){
      Run&r=runs[i];bool eof=false;char b[65536];
      for(;;){ssize_t k=read(r.fd,b,sizeof b);if(k>0)r.buf.append(b,k);else if(k==0){eof=true;break;}else break;}
      // lines
      size_t pos=0;
      for(;;){size_t nl=r.buf.find('\n',pos);if(nl==std::string::npos)break;std::string ln=r.buf.substr(pos,nl-pos);pos=nl+1;
        const char*s=ln.c_str();
        auto nums=[&](const char*&p,std::vector<u64>&v){char*e;u64 n=strtoull(p,&e,10);p=e;for(u64 k=0;k<n;k++){v.push_back(strtoull(p,&e,10));p=e;}};
        switch(s[0]){
          case 'N':{Item it;char*e;it.bound=strtoull(s+2,&e,10);it.hash=strtoull(e,&e,10);const char*p=e;nums(p,it.in);nums(p,it.excl);q.push_back(std::move(it));break;}
          case 'V':{const char*p=s+2;const char*sp=strchr(p,' ');Viol v;v.kind.assign(p,sp-p);p=sp;nums(p,v.in);if(*p==' ')p++;v.msg=p;
            std::string key=v.kind+"|"+v.msg;if(vkeys.insert(key).second||viols.size()<(size_t)maxviol)if(viols.size()<200)viols.push_back(v);
            if(viols.size()>=(size_t)maxviol)stop=true;break;}
          case 'S':{const char*p=s+2;char*e;for(int k=0;k<13;k++){tot[k]+=0;u64 v=strtoull(p,&e,10);if(k==5)maxev=std::max(maxev,v);tot[k]+=v;p=e;}break;}
          case 'F':fns.insert(s+2);break;case 'L':leaks.insert(s+2);break;case 'P':pins.insert(s+2);break;case 'R':reach.insert(s+2);break;case 'E':errs.insert(s+2);break;
          case 'I':{if(samples.size()<4||(completed%997==0&&samples.size()<12)){std::vector<u64>v;const char*p=s+2;nums(p,v);samples.push_back(v);}break;}
          case 'D':ends[s+2]++;completed++;break;
        }}
      r.buf.erase(0,pos);
      bool kill_it=!eof&&(nw-r.start>path_timeout+60);
      if(kill_it)kill(r.pid,SIGKILL);
      if(eof||kill_it){
        int stt=0;waitpid(r.pid,&stt,0);close(r.fd);
        if(WIFSIGNALED(stt)){ends["killed"]++;errs.insert("child killed by signal "+std::to_string(WTERMSIG(stt)));}
        else if(WEXITSTATUS(stt)!=0){errs.insert("child exit status "+std::to_string(WEXITSTATUS(stt)));ends["bad-exit"]++;}
        runs.erase(runs.begin()+i);
      } else i++;
    }
    if(stop&&!viols.empty()){for(auto&r:runs)kill(r.pid,SIGKILL);for(auto&r:runs){int x;waitpid(r.pid,&x,0);close(r.fd);}runs.clear();}
    if(stop&&now_us()/1e6-t0>budget+20){for(auto&r:runs)kill(r.pid,SIGKILL);for(auto&r:runs){int x;waitpid(r.pid,&x,0);close(r.fd);}runs.clear();}
  }
  if(!q.empty())complete=false;if(tot[11]||tot[3]||!errs.empty())complete=false;
  // confirm violations by concrete execution of the same instrumented binary
  std::string vj;
  for(auto&v:viols){
    int p[2];if(pipe(p))return 3;pid_t pid=fork();Item it;it.in=v.in;it.bound=0;it.hash=0;
    if(pid==0){close(p[0]);child(it,p[1],true,quiet);}
    close(p[1]);std::string buf;char b[4096];ssize_t k;while((k=read(p[0],b,sizeof b))>0)buf.append(b,k);close(p[0]);int x;waitpid(pid,&x,0);
    bool conf=buf.find("\nV ")!=std::string::npos||buf.compare(0,2,"V ")==0;if(conf)nconfirmed++;
    if(!vj.empty())vj+=",";
    vj+="{\"kind\":\""+jesc(v.kind)+"\",\"msg\":\""+jesc(v.msg)+"\",\"confirmed\":"+(conf?"true":"false")+",\"inputs\":[";
    for(size_t i=0;i<v.in.size();i++){if(i)vj+=",";vj+="\""+std::to_string(v.in[i])+"\"";}vj+="]}";
  }
  double wall=now_us()/1e6-t0;
  auto js=[&](const std::set<std::string>&s){std::string o="[";bool f=true;for(auto&x:s){if(!f)o+=",";f=false;o+="\""+jesc(x)+"\"";}return o+"]";};
  std::string o="{";
  auto kv=[&](const char*k,const std::string&v){if(o.size()>1)o+=",\n";o+="\""+std::string(k)+"\":"+v;};
  kv("complete",complete?"true":"false");kv("paths",std::to_string(paths));kv("paths_finished",std::to_string(completed));kv("pending",std::to_string(q.size()));
  const char*nm[]={"queries","sat","unsat","unknown","solver_us","decisions","pins","asserts","asserts_symbolic","assumes","stale_shadow","incomplete_flags","terms"};
  for(int k=0;k<13;k++)kv(nm[k],std::to_string(tot[k]));
  kv("max_decisions",std::to_string(maxev));kv("wall_s",std::to_string(wall));
  {std::string e="{";bool f=true;for(auto&x:ends){if(!f)e+=",";f=false;e+="\""+jesc(x.first)+"\":"+std::to_string(x.second);}kv("ends",e+"}");}
  kv("functions",js(fns));kv("leaks",js(leaks));kv("pinned_at",js(pins));kv("reached",js(reach));kv("errors",js(errs));kv("violations","["+vj+"]");
  {std::string e="[";for(size_t i=0;i<samples.size();i++){if(i)e+=",";e+="[";for(size_t k=0;k<samples[i].size();k++){if(k)e+=",";e+="\""+std::to_string(samples[i][k])+"\"";}e+="]";}kv("samples",e+"]");}
  o+="}\n";
  FILE*f=outf?fopen(outf,"w"):stdout;if(f){fputs(o.c_str(),f);fflush(f);if(outf)fclose(f);}
  _exit(viols.empty()?0:1);
}
