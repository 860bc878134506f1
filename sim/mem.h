// User supplied base allocator owned by the simulator: placement, garbage, redzones, accounting.
#pragma once
#include "core.h"
#include <reactphysics3d/reactphysics3d.h>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
namespace sim {
// exact accounting of the blocks of the library's own allocators; filled only by direct.cpp (variant with direct allocation)
extern bool gDirect; extern long long gDirectBytes, gFrameBlocks; extern std::string gDirectErr;
struct MemCfg { int place=0;      // 0 ascending, 1 scattered, 2 descending
  int fill=0;                     // 0 zero, 1 0xA5, 2 0xFF, 3 random, 4 stale
  bool reuse=true; u64 seed=1; };
class SimAlloc : public reactphysics3d::MemoryAllocator {
  static const size_t ARENA=(size_t)8<<30, RZ=64, LANES=64;
  struct Blk { size_t size; char* raw; size_t rawSize; };
  char* base; size_t lane[LANES]; size_t down; Rng rng; MemCfg cfg;
  std::map<char*,Blk> live; std::map<size_t,std::vector<char*>> freeList;
public:
  size_t liveBytes=0, peakBytes=0; u64 nAlloc=0, nRelease=0; std::string error;
  explicit SimAlloc(MemCfg c):rng(c.seed),cfg(c){
    static int arenaNo=0; arenaNo++;
    base=(char*)mmap((void*)(0x100000000000ull+(u64)arenaNo*0x10000000000ull),ARENA,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    if(base==MAP_FAILED) { perror("mmap"); _exit(3); }
    for(size_t i=0;i<LANES;i++) lane[i]=i*(ARENA/LANES); down=ARENA;
  }
  ~SimAlloc(){ munmap(base,ARENA); }
  void bad(const std::string& m){ if(error.empty()) error=m; }
  void* allocate(size_t size) override {
    nAlloc++; size_t raw=((size+15)&~(size_t)15)+2*RZ; char* p=nullptr;
    auto it=freeList.find(raw);
    if(cfg.reuse&&it!=freeList.end()&&!it->second.empty()){ p=it->second.back(); it->second.pop_back(); }
    else if(cfg.place==2){ down-=raw; p=base+down; }
    else { size_t l=cfg.place==1?rng.n(LANES):0; if(cfg.place==1) lane[l]+=16*rng.n(64); p=base+lane[l]; lane[l]+=raw; if(cfg.place==0? lane[0]>ARENA: lane[l]>(l+1)*(ARENA/LANES)) { bad("arena exhausted"); throw std::bad_alloc(); } }
    char* u=p+RZ; memset(p,0xFD,RZ); memset(u+((size+15)&~(size_t)15),0xFD,RZ); for(size_t k=size;k<((size+15)&~(size_t)15);k++) u[k]=(char)0xFD;
    size_t lim=size; if(cfg.fill==0) memset(u,0,lim); else if(cfg.fill==1) memset(u,0xA5,lim); else if(cfg.fill==2) memset(u,0xFF,lim);
    else if(cfg.fill==3){ size_t k=0; for(;k+8<=lim;k+=8){ u64 v=rng.next(); memcpy(u+k,&v,8);} }
    live[u]=Blk{size,p,raw}; liveBytes+=size; if(liveBytes>peakBytes) peakBytes=liveBytes; return u;
  }
  static bool canary(const Blk& b,char* u){ for(size_t k=0;k<RZ;k++) if((unsigned char)b.raw[k]!=0xFD) return false; char* e=u+b.size; char* end=b.raw+b.rawSize; for(;e<end;e++) if((unsigned char)*e!=0xFD) return false; return true; }
  void release(void* ptr,size_t size) override {
    nRelease++; auto it=live.find((char*)ptr); if(it==live.end()){ bad(fmt("release of a block that is not live (%zu bytes)",size)); return; }
    if(it->second.size!=size) bad(fmt("block of %zu bytes released with size %zu",it->second.size,size));
    if(!canary(it->second,(char*)ptr)) bad(fmt("write outside a block of %zu bytes",it->second.size));
    liveBytes-=it->second.size; if(cfg.fill!=4) memset(ptr,0xDD,it->second.size); freeList[it->second.rawSize].push_back(it->second.raw); live.erase(it);
  }
  void checkCanaries(){ for(auto&k:live) if(!canary(k.second,k.first)) bad(fmt("write outside a block of %zu bytes",k.second.size)); }
  size_t outstanding() const { return live.size(); }
};
}
