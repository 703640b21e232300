#ifndef SIM_INTERNAL_H
#define SIM_INTERNAL_H
#include "core.h"
#include <cstring>
#include <pthread.h>

namespace sim
{
constexpr int MAX_FIBERS = 56;

struct VC
{
    u32 c[MAX_FIBERS];
    void clear() { memset(c, 0, sizeof c); }
    void join(const VC& o) { for(int i = 0; i < MAX_FIBERS; ++i) if(o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum FState { FS_RUNNABLE, FS_BLOCKED, FS_DONE };

struct Fiber
{
    int id;
    const char* name;
    bool sut;              // created through pthread_create
    FState state;
    void* sp;
    u8* stack;
    size_t stack_size;
    void* (*start)(void*);
    void* arg;
    void* ret;
    std::function<void()>* fn;
    bool detached;
    bool joined;
    int joiner;            // fiber waiting in join, or -1
    // blocking
    const char* why;
    const void* wait_obj;
    bool timed_out;
    u64 wait_event;        // id of timeout event, 0 if none
    u64 stalled_until;
    u64 runnable_seq;
    u32 prio;
    i64 quantum;
    // context
    int depth;
    int saved_errno;
    u8 eh[16];
    void* once[2];
    u8* tls;               // copy of the executable's TLS block
    void* specific[64];
    std::vector<std::pair<void (*)(void*), void*>>* tls_dtors;
    // happens-before
    VC vc, acq_pending, rel_fence;
};

extern Fiber* g_cur;
extern std::vector<Fiber*>* g_fibers;
extern i64 g_quantum;
extern u64 g_steps;

void block(const char* why, const void* obj, u64 deadline = NEVER); // sets g_cur->timed_out
void wake(Fiber* f);
void preempt_slow();
void schedule_point();   // possible switch at a synchronisation operation

Fiber* fiber_create(const char* name, bool sut, void* (*start)(void*), void* arg, std::function<void()>* fn);

// race/lifetime engine
void mem_init();
void* arena_alloc(size_t size, size_t align, const void* pc);
void arena_free(void* p, const void* pc, bool from_sut);
bool in_arena(const void* p);
void mem_access(uintptr_t addr, size_t size, bool write, bool atomic, uintptr_t pc);
void mem_check_live(uintptr_t addr, uintptr_t pc);   // lifetime only
void mem_range(const void* p, size_t size, bool write, const void* pc);
void mem_register_stack(u8* base, size_t size);
void hb_fork(Fiber* parent, Fiber* child);
void hb_join(Fiber* joiner, Fiber* done);
void sync_acquire(const void* addr);
void sync_release(const void* addr);        // join
void sync_forget(const void* addr);
size_t arena_usable(void* p);

// network
void net_reset();
std::string net_dump();

std::string symbolize(uintptr_t pc);
} // namespace sim
#endif
