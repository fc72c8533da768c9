/* Instrumented stand-ins for libc string functions (compiled with the vsym
   pass, so symbolic bytes flow through them). Plain definitions of the C
   standard's behaviour in the C locale. */
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#include <errno.h>
typedef unsigned char u8;
extern double rt_strtod(const char*,char**);
/* branch-free equality first, so that comparing symbolic strings makes one
   decision instead of one per byte */
int vsl_memcmp(const void*a,const void*b,size_t n){const u8*p=a,*q=b;for(size_t i=0;i<n;i++)if(p[i]!=q[i])return p[i]<q[i]?-1:1;return 0;}
int vsl_bcmp(const void*a,const void*b,size_t n){const u8*p=a,*q=b;u8 d=0;for(size_t i=0;i<n;i++)d|=p[i]^q[i];return d!=0;}
size_t vsl_strlen(const char*s){size_t n=0;while(s[n])n++;return n;}
size_t vsl_strnlen(const char*s,size_t m){size_t n=0;while(n<m&&s[n])n++;return n;}
int vsl_strcmp(const char*a,const char*b){const u8*p=(const u8*)a,*q=(const u8*)b;for(;;p++,q++){if(*p!=*q)return *p<*q?-1:1;if(!*p)return 0;}}
int vsl_strncmp(const char*a,const char*b,size_t n){const u8*p=(const u8*)a,*q=(const u8*)b;for(;n;n--,p++,q++){if(*p!=*q)return *p<*q?-1:1;if(!*p)return 0;}return 0;}
int vsl_tolower(int c){return c>='A'&&c<='Z'?c+32:c;}
int vsl_toupper(int c){return c>='a'&&c<='z'?c-32:c;}
int vsl_strcasecmp(const char*a,const char*b){const u8*p=(const u8*)a,*q=(const u8*)b;for(;;p++,q++){int x=vsl_tolower(*p),y=vsl_tolower(*q);if(x!=y)return x-y;if(!x)return 0;}}
char*vsl_strchr(const char*s,int c){for(;;s++){if(*s==(char)c)return (char*)s;if(!*s)return 0;}}
char*vsl_strrchr(const char*s,int c){char*r=0;for(;;s++){if(*s==(char)c)r=(char*)s;if(!*s)return r;}}
void*vsl_memchr(const void*s,int c,size_t n){const u8*p=s;for(size_t i=0;i<n;i++)if(p[i]==(u8)c)return (void*)(p+i);return 0;}
void*vsl_memrchr(const void*s,int c,size_t n){const u8*p=s;while(n--)if(p[n]==(u8)c)return (void*)(p+n);return 0;}
void*vsl_rawmemchr(const void*s,int c){const u8*p=s;while(*p!=(u8)c)p++;return (void*)p;}
char*vsl_strcpy(char*d,const char*s){char*r=d;while((*d++=*s++));return r;}
char*vsl_strncpy(char*d,const char*s,size_t n){size_t i=0;for(;i<n&&s[i];i++)d[i]=s[i];for(;i<n;i++)d[i]=0;return d;}
char*vsl_strcat(char*d,const char*s){char*r=d;while(*d)d++;while((*d++=*s++));return r;}
void*vsl_memmem(const void*h,size_t n,const void*k,size_t m){if(m==0)return (void*)h;const u8*p=h;for(size_t i=0;i+m<=n;i++)if(!vsl_bcmp(p+i,k,m))return (void*)(p+i);return 0;}
char*vsl_strstr(const char*h,const char*k){size_t n=vsl_strlen(h),m=vsl_strlen(k);return vsl_memmem(h,n,k,m);}
static int in(char c,const char*s){for(;*s;s++)if(*s==c)return 1;return 0;}
size_t vsl_strspn(const char*s,const char*a){size_t i=0;while(s[i]&&in(s[i],a))i++;return i;}
size_t vsl_strcspn(const char*s,const char*a){size_t i=0;while(s[i]&&!in(s[i],a))i++;return i;}
char*vsl_strpbrk(const char*s,const char*a){for(;*s;s++)if(in(*s,a))return (char*)s;return 0;}
char*vsl_strsep(char**sp,const char*d){char*s=*sp;if(!s)return 0;char*e=s+vsl_strcspn(s,d);if(*e){*e=0;*sp=e+1;}else *sp=0;return s;}
char*vsl_strtok_r(char*s,const char*d,char**sv){if(!s)s=*sv;if(!s)return 0;s+=vsl_strspn(s,d);if(!*s){*sv=s;return 0;}char*e=s+vsl_strcspn(s,d);if(*e){*e=0;*sv=e+1;}else *sv=e;return s;}
int vsl_isspace(int c){return c==' '||(c>=9&&c<=13);}
int vsl_isdigit(int c){return c>='0'&&c<='9';}
int vsl_isupper(int c){return c>='A'&&c<='Z';}
int vsl_islower(int c){return c>='a'&&c<='z';}
int vsl_isalpha(int c){return (c>='A'&&c<='Z')||(c>='a'&&c<='z');}
int vsl_isalnum(int c){return vsl_isalpha(c)||vsl_isdigit(c);}
int vsl_isprint(int c){return c>=32&&c<127;}
int vsl_ispunct(int c){return c>32&&c<127&&!vsl_isalnum(c);}
int vsl_isxdigit(int c){return vsl_isdigit(c)||(c>='a'&&c<='f')||(c>='A'&&c<='F');}
static int dig(int c){if(c>='0'&&c<='9')return c-'0';if(c>='a'&&c<='z')return c-'a'+10;if(c>='A'&&c<='Z')return c-'A'+10;return 99;}
static unsigned long ull(const char*s,char**e,int base,int sgn){
  const char*p=s;while(vsl_isspace((u8)*p))p++;int neg=0;if(*p=='-'){neg=1;p++;}else if(*p=='+')p++;
  if((base==0||base==16)&&p[0]=='0'&&(p[1]=='x'||p[1]=='X')&&dig(p[2])<16){p+=2;base=16;}
  if(base==0)base=p[0]=='0'?8:10;
  const char*st=p;unsigned long v=0;int ov=0;unsigned long lim=sgn?(neg?(unsigned long)LONG_MAX+1:LONG_MAX):ULONG_MAX;
  for(;;p++){int d=dig(*p);if(d>=base)break;if(ov)continue;
    if(v>(lim-d)/base){ov=1;continue;}v=v*base+d;}
  if(e)*e=(char*)(p==st?s:p);
  if(ov){errno=ERANGE;return sgn?(neg?(unsigned long)LONG_MIN:LONG_MAX):ULONG_MAX;}
  return neg?-v:v;
}
long vsl_strtol(const char*s,char**e,int b){return (long)ull(s,e,b,1);}
long long vsl_strtoll(const char*s,char**e,int b){return (long)ull(s,e,b,1);}
unsigned long vsl_strtoul(const char*s,char**e,int b){return ull(s,e,b,0);}
unsigned long long vsl_strtoull(const char*s,char**e,int b){return ull(s,e,b,0);}
int vsl_atoi(const char*s){return (int)ull(s,0,10,1);}
long vsl_atol(const char*s){return (long)ull(s,0,10,1);}
/* decimal floats: the text is made concrete byte by byte (one case per value) */
extern long vs_concrete(long);
static size_t conc(const char*s,char*buf,size_t m){size_t i=0;for(;i+1<m;i++){char c=s[i];
   int ok=vsl_isspace((u8)c)||vsl_isdigit(c)||vsl_isalpha(c)||c=='+'||c=='-'||c=='.'; if(!ok)break; buf[i]=(char)vs_concrete(c);}buf[i]=0;return i;}
double vsl_strtod(const char*s,char**e){char b[128];char*q;conc(s,b,128);double d=rt_strtod(b,&q);if(e)*e=(char*)s+(q-b);return d;}
extern float rt_strtof(const char*,char**);
float vsl_strtof(const char*s,char**e){char b[128];char*q;conc(s,b,128);float d=rt_strtof(b,&q);if(e)*e=(char*)s+(q-b);return d;}
double vsl_atof(const char*s){return vsl_strtod(s,0);}
/* hash for std::hash<string>: any function of the bytes is a valid model */
size_t vsl_Hash_bytes(const void*p,size_t n,size_t seed){const u8*s=p;size_t h=seed^n;for(size_t i=0;i<n;i++)h=h*31+s[i];return h;}
