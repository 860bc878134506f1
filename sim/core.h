// Simulator core: PRNG, trace (operation list) format, violation reporting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <memory>
#include <sstream>
namespace sim {
typedef uint64_t u64; typedef uint32_t u32;

struct Rng { u64 s[4];
  static u64 sm(u64& x){ u64 z=(x+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
  explicit Rng(u64 seed=1){ u64 x=seed; for(auto&v:s) v=sm(x); }
  u64 next(){ auto r=[](u64 x,int k){return (x<<k)|(x>>(64-k));}; u64 res=r(s[1]*5,7)*9,t=s[1]<<17; s[2]^=s[0];s[3]^=s[1];s[1]^=s[2];s[0]^=s[3];s[2]^=t;s[3]=r(s[3],45); return res; }
  double u(){ return (next()>>11)*(1.0/9007199254740992.0); }
  double u(double a,double b){ return a+(b-a)*u(); }
  int n(int k){ return k<=0?0:(int)(next()%(u64)k); }          // [0,k)
  int in(int a,int b){ return a+n(b-a+1); }
  bool p(double pr){ return u()<pr; }
  template<class T> const T& pick(const std::vector<T>& v){ return v[n((int)v.size())]; }
};
inline u64 mix(u64 a,u64 b){ u64 x=a*0x9E3779B97F4A7C15ull+b; return Rng::sm(x); }

// incremental hash of observable state
struct Hash { u64 h=0xcbf29ce484222325ull; void b(const void*p,size_t n){ const unsigned char*c=(const unsigned char*)p; for(size_t i=0;i<n;i++){ h^=c[i]; h*=0x100000001b3ull; } h^=h>>29; }
  void i(long long v){ b(&v,sizeof v);} template<class T> void f(T v){ b(&v,sizeof v);} };

enum Kind : int {
#define OP(x) x,
#include "ops.def"
#undef OP
  NKINDS };
inline const char* kindName(int k){ static const char* n[]={
#define OP(x) #x,
#include "ops.def"
#undef OP
 }; return k>=0&&k<NKINDS?n[k]:"?"; }
inline int kindOf(const std::string& s){ for(int i=0;i<NKINDS;i++) if(s==kindName(i)) return i; return -1; }

struct Op { int k=0; std::vector<long> i; std::vector<double> d;
  Op(){} Op(int kk,std::vector<long> ii={},std::vector<double> dd={}):k(kk),i(std::move(ii)),d(std::move(dd)){}
  long I(size_t n) const { return n<i.size()?i[n]:0; } double D(size_t n) const { return n<d.size()?d[n]:0.0; }
  std::string str() const { std::string s=kindName(k); char b[64]; for(long v:i){ snprintf(b,64," %ld",v); s+=b; } if(!d.empty()){ s+=" |"; for(double v:d){ snprintf(b,64," %a",v); s+=b; } } return s; }
  std::string human() const { std::string s=kindName(k); char b[64]; for(long v:i){ snprintf(b,64," %ld",v); s+=b; } if(!d.empty()){ s+=" |"; for(double v:d){ snprintf(b,64," %.6g",v); s+=b; } } return s; }
  static bool parse(const std::string& line,Op& o){ std::istringstream is(line); std::string t; if(!(is>>t)) return false; o=Op(); o.k=kindOf(t); if(o.k<0) return false; bool dd=false; while(is>>t){ if(t=="|"){dd=true;continue;} if(dd) o.d.push_back(strtod(t.c_str(),nullptr)); else o.i.push_back(strtol(t.c_str(),nullptr,10)); } return true; }
};
typedef std::vector<Op> Trace;

struct Violation { std::string prop, msg; int step=-1; };
struct Stop {}; // thrown to end a run after a violation
struct Quiet {}; // thrown to end a run that left the domain of the property

inline std::string fmt(const char* f,...){ char b[1024]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
typedef std::map<std::string,long long> Stats;
}
