// C16: concurrent use of the library's allocators, checked against a map of live blocks.
#include "work.h"
#include "../sim/mem.h"
#include <reactphysics3d/memory/MemoryManager.h>
namespace tw {
namespace rp=reactphysics3d; using sim::SimAlloc; using sim::MemCfg;
struct BaseAlloc : SimAlloc { BaseAlloc(MemCfg c):SimAlloc(c){}
  void* allocate(size_t n) override { rt::yieldPoint(); rt::Quiet q; void* p=SimAlloc::allocate(n); rt::clearShadow(p,n,false); return p; }
  void release(void* p,size_t n) override { rt::yieldPoint(); rt::Quiet q; SimAlloc::release(p,n); rt::clearShadow(p,n,true); if(!error.empty()) rt::report("base allocator: "+error); } };
Work gen16(u64 seed){ Rng r(mix(seed,16)); Work w; int kind=r.n(7); int nt=r.in(2,4); w.rounds=r.in(1,3); long init=r.p(0.4)?0:16*r.in(8,4000); if(r.p(0.15)) init=r.in(128,70000);
  w.setup.push_back(fmt("ALLOC %d %ld %d %d %d %d",kind,init,r.n(3),r.n(5),r.n(2),r.n(1000000))); int ops=r.in(4,r.p(0.15)?220:45); bool big=r.p(0.25), tiny=r.p(0.3); int hot=r.in(1,1100);
  double pFree=r.u(0.25,0.55); w.th.resize(nt); for(int t=0;t<nt;t++) for(int rd=0;rd<w.rounds;rd++) for(int k=0;k<ops;k++){ std::string s; double u=r.u(); long size;
    switch(tiny?0:r.n(8)){ case 0: size=r.in(1,16); break; case 1: size=8*r.in(1,128); break; case 2: size=r.in(1,1100); break; case 3: size=hot; break; case 4: size=r.in(2036,2056); break; case 5: size=r.in(1,4)*64; break; case 6: size=big?r.in(1000,300000):r.in(1,512); break; default: size=big?r.in(1,20000):r.in(900,2500); }
    int how=kind==0?0:kind==1||kind==5?(kind==5?r.n(2):1):kind==2||kind==3||kind==4?(r.p(0.1)?3:r.n(3)):r.n(2); if(kind==6) how=1; if(how==2&&r.p(0.1)) size=r.in(200000,700000);
    if(u<1-pFree) s=fmt("A %d %ld %d",r.n(40),size,how); else if(u<1-pFree*0.35) s=fmt("R %d",r.n(40)); else if(u<1-pFree*0.25) s=fmt("C %d",r.n(40)); else if(u<1-pFree*0.12) s=fmt("G %d",r.n(40)); else if(u<1-pFree*0.03) s="T"; else s=fmt("M %d %d %d",r.in(20,r.p(0.2)?1500:120),r.p(0.5)?r.in(500,1024):r.in(1,64),how==2||how==3?1:how); w.th[t].push_back(Line{rd,s}); }
  return w; }
struct Blk { char* p=nullptr; size_t n=0; int how=0; u64 tag=0; int owner=-1; };
static std::map<char*,size_t>* live; static u64 tagNo; static std::vector<Blk>* mail;
struct Pack { BaseAlloc* base=nullptr; rp::HeapAllocator* heap=nullptr; rp::PoolAllocator* pool=nullptr; rp::MemoryManager* mm=nullptr;
  void* alloc(int how,size_t n){ if(mm) return mm->allocate(how==0?rp::MemoryManager::AllocationType::Heap:how==1?rp::MemoryManager::AllocationType::Pool:how==2?rp::MemoryManager::AllocationType::Frame:rp::MemoryManager::AllocationType::Base,n); if(how==1&&pool) return pool->allocate(n); return heap?heap->allocate(n):pool->allocate(n); }
  void release(int how,void* p,size_t n){ if(mm) return mm->release(how==0?rp::MemoryManager::AllocationType::Heap:how==1?rp::MemoryManager::AllocationType::Pool:how==2?rp::MemoryManager::AllocationType::Frame:rp::MemoryManager::AllocationType::Base,p,n); if(how==1&&pool) return pool->release(p,n); if(heap) heap->release(p,n); else pool->release(p,n); }
  void make(int kind,long init,MemCfg mc){ if(kind!=3&&kind!=6) base=new BaseAlloc(mc); if(kind==0) heap=new rp::HeapAllocator(*base,init); else if(kind==1) pool=new rp::PoolAllocator(*base); else if(kind==5){ heap=new rp::HeapAllocator(*base,init); pool=new rp::PoolAllocator(*heap); } else if(kind==6){ mm=new rp::MemoryManager(nullptr,init); } else mm=new rp::MemoryManager(kind==3?nullptr:base,init); }
  void destroy(){ delete pool; delete heap; delete mm; pool=nullptr; heap=nullptr; mm=nullptr; if(base){ rt::Quiet q; base->checkCanaries(); if(!base->error.empty()) rt::report("base allocator: "+base->error); if(base->outstanding()) rt::report(fmt("%zu blocks (%zu bytes) were not returned to the base allocator",base->outstanding(),base->liveBytes)); delete base; base=nullptr; } } };
static void fill(const Blk& b){ for(size_t k=0;k<b.n;k++) b.p[k]=(char)(b.tag*131+k*7); }
static bool intact(const Blk& b){ for(size_t k=0;k<b.n;k++) if(b.p[k]!=(char)(b.tag*131+k*7)) return false; return true; }
static void touch(const Blk& b,bool w){ rt::access(b.p,std::min<size_t>(b.n,256),w); if(b.n>256) rt::access(b.p+b.n-16,16,w); }
static Blk take(Pack& P,size_t n,int how){ if(n>0&&how==3) n=(n+15)&~(size_t)15; Blk b; b.n=n; b.how=how; b.p=(char*)P.alloc(how,n); { rt::Quiet q; stat(fmt("alloc_type_%d",how),1); if(!b.p) rt::report(fmt("allocate(%zu) returned null",n)); if((u64)b.p%16) rt::report(fmt("a block of %zu bytes is not aligned to 16 bytes",n));
    b.tag=++tagNo; auto it=live->lower_bound(b.p); if(it!=live->end()&&it->first<b.p+n) rt::report(fmt("a new block of %zu bytes overlaps a live block of %zu bytes",n,it->second)); if(it!=live->begin()){ --it; if(it->first+it->second>b.p) rt::report(fmt("a new block of %zu bytes overlaps a live block of %zu bytes",n,it->second)); } (*live)[b.p]=n; fill(b); } touch(b,true); rt::yieldPoint(); return b; }
static void check(const Blk& b,const char* when){ rt::Quiet q; if(!intact(b)) rt::report(fmt("the contents of a live block of %zu bytes changed (seen %s)",b.n,when)); }
static void drop(Pack& P,Blk& b){ check(b,"at its release"); touch(b,false); { rt::Quiet q; live->erase(b.p); stat("release",1); } P.release(b.how,b.p,b.n); b=Blk(); }
void run16(const Work& w,u64){ live=new std::map<char*,size_t>(); mail=new std::vector<Blk>(); int kind=0,place=0,fl=0,reuse=0; long init=0,ms=1; for(auto&s:w.setup) sscanf(s.c_str(),"ALLOC %d %ld %d %d %d %ld",&kind,&init,&place,&fl,&reuse,&ms); MemCfg mc; mc.place=place; mc.fill=fl; mc.reuse=reuse; mc.seed=(u64)ms; stat(fmt("allocator_kind_%d",kind),1);
  bool own=kind==4||kind==6; Pack shared; size_t h0=rt::heapLive(); static rt::Mutex mm; if(!own) shared.make(kind,init,mc); int n=(int)w.th.size(); std::vector<std::vector<Blk>> slots(n),extra(n);
  std::vector<Pack> packs(n); for(int rd=0;rd<w.rounds;rd++){ std::vector<std::function<void()>> bodies; for(int t=0;t<n;t++) bodies.push_back([&,t,rd](){ Pack& P=own?packs[t]:shared; if(own){ MemCfg m2; { rt::Quiet q; m2=mc; m2.seed+=t; } P.make(kind==4?2:6,init,m2); } { rt::Quiet q; slots[t].resize(40); }
      for(auto&l:w.th[t]){ if(l.round!=rd) continue; int a=0,how=0; long sz=0; char c=l.s[0]; if(c=='A'){ sscanf(l.s.c_str(),"A %d %ld %d",&a,&sz,&how); Blk& b=slots[t][a%40]; if(b.p) drop(P,b); b=take(P,(size_t)sz,how); }
        else if(c=='R'){ sscanf(l.s.c_str(),"R %d",&a); Blk& b=slots[t][a%40]; if(b.p) drop(P,b); }
        else if(c=='C'){ sscanf(l.s.c_str(),"C %d",&a); Blk& b=slots[t][a%40]; if(b.p){ touch(b,false); check(b,"while it is live"); } }
        else if(c=='G'&&!own){ sscanf(l.s.c_str(),"G %d",&a); Blk& b=slots[t][a%40]; if(b.p){ mm.lock(); { rt::Quiet q; mail->push_back(b); b=Blk(); stat("handed_over",1); } mm.unlock(); } }
        else if(c=='T'&&!own){ Blk b; mm.lock(); { rt::Quiet q; if(!mail->empty()){ b=mail->front(); mail->erase(mail->begin()); } } mm.unlock(); if(b.p) drop(P,b); }
        else if(c=='M'){ int cnt=0; sscanf(l.s.c_str(),"M %d %ld %d",&cnt,&sz,&how); for(int k=0;k<cnt;k++){ Blk b=take(P,(size_t)sz,how); rt::Quiet q; extra[t].push_back(b); } for(size_t k=0;k<extra[t].size();k+=2){ drop(P,extra[t][k]); } rt::Quiet q; std::vector<Blk> keep; for(auto&b:extra[t]) if(b.p) keep.push_back(b); extra[t]=keep; } }
      if(own||rd+1==w.rounds||true){ for(auto&b:slots[t]) if(b.p&&(own||b.how==2)) drop(P,b); if(own){ for(auto&b:extra[t]) if(b.p) drop(P,b); { rt::Quiet q; extra[t].clear(); } P.destroy(); } } });
    rt::run(bodies);
    if(!own){ for(size_t k=0;k<mail->size();) { if((*mail)[k].how==2){ drop(shared,(*mail)[k]); mail->erase(mail->begin()+k); } else k++; } for(auto&q:slots) for(auto&b:q) if(b.p) check(b,"at the end of a round"); if(shared.mm){ shared.mm->resetFrameAllocator(); stat("frame_reset",1); } } }
  if(!own){ for(auto&b:*mail) drop(shared,b); for(auto&q:slots) for(auto&b:q) if(b.p) drop(shared,b); for(auto&q:extra) for(auto&b:q) if(b.p) drop(shared,b); shared.destroy(); }
  (void)h0; if(!live->empty()) rt::report("internal: live blocks remain"); stat("blocks",(long long)tagNo); gRunHash.i((long long)tagNo); }
}
