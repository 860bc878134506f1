// Direct allocation: replaces the bodies of the library's heap, pool and single frame allocators (their symbols are made
// weak in the built objects) by one malloc block per request, so that AddressSanitizer sees every stale or out-of-bounds
// access and the bytes in use are known exactly. What the real allocators rely on is checked: a block is released once,
// with the size class it was requested with, and frame memory is released by its owner before the frame ends (blocks
// that did not fit into the frame buffer would leak otherwise).
#include "../sim/core.h"
#include "../sim/mem.h"
#include <reactphysics3d/memory/HeapAllocator.h>
#include <reactphysics3d/memory/PoolAllocator.h>
#include <reactphysics3d/memory/SingleFrameAllocator.h>
extern "C" void __sanitizer_print_stack_trace();
namespace { struct B { const void* owner; size_t size; }; std::unordered_map<void*,B>* M; struct Init { Init(){ sim::gDirect=true; M=new std::unordered_map<void*,B>(); } } init;
void err(const std::string& m){ if(sim::gDirectErr.empty()) sim::gDirectErr=m; }
static char* gdbg=getenv("GROWDBG"); void* get(const void* owner,size_t size){ if(gdbg&&size>40000) __sanitizer_print_stack_trace(); void* p=nullptr; if(posix_memalign(&p,16,size?size:1)) abort(); memset(p,0xA5,size); (*M)[p]={owner,size}; return p; }
bool put(const void* owner,void* p,size_t size,size_t round,size_t limit,const char* what){ auto it=M->find(p); if(it==M->end()||it->second.owner!=owner) return false;
  size_t a=it->second.size; if(round&&(a<=limit&&size<=limit? (a+round-1)/round!=(size+round-1)/round: a!=size)) err(sim::fmt("a block of %zu bytes of the %s allocator is released as %zu bytes",a,what,size)); M->erase(it); free(p); return true; } }
namespace reactphysics3d {
void* HeapAllocator::allocate(size_t size){ sim::gDirectBytes+=size; return get(this,size); }
void HeapAllocator::release(void* p,size_t size){ auto it=M->find(p); if(it!=M->end()) sim::gDirectBytes-=it->second.size; if(!put(this,p,size,0,0,"heap")) err("the heap allocator is asked to release a block that is not live"); }
void* PoolAllocator::allocate(size_t size){ sim::gDirectBytes+=size; return get(this,size); }
void PoolAllocator::release(void* p,size_t size){ auto it=M->find(p); if(it!=M->end()) sim::gDirectBytes-=it->second.size; if(!put(this,p,size,16,2048,"pool")) err("the pool allocator is asked to release a block that is not live"); }
void* SingleFrameAllocator::allocate(size_t size){ sim::gFrameBlocks++; return get(this,size); }
void SingleFrameAllocator::release(void* p,size_t size){ if(put(this,p,size,1,0,"single frame")) sim::gFrameBlocks--; else err("the single frame allocator is asked to release a block that is not live"); }
void SingleFrameAllocator::reset(){ for(auto it=M->begin();it!=M->end();) if(it->second.owner==this){ err(sim::fmt("a block of %zu bytes of the single frame allocator is not released at the end of the frame",it->second.size)); sim::gFrameBlocks--; free(it->first); it=M->erase(it); } else ++it; }
}
