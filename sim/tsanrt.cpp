// Memory engine: the __tsan_* ABI the instrumented SUT calls, a vector-clock
// data-race detector, and a never-reusing heap arena that detects
// use-after-free, double free and out-of-bounds heap accesses.
#include "internal.h"

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <elf.h>
#include <algorithm>
#include <fcntl.h>
#include <new>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_map>

extern "C" {
extern char __data_start[];
extern char _end[];
extern char __executable_start[];
extern char etext[];
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_memalign(size_t, size_t);
extern char __libc_single_threaded;
}

namespace sim
{
constexpr uintptr_t ARENA = 0x6a0000000000ull;
constexpr size_t ARENA_SIZE = 512ull << 20;
constexpr uintptr_t STACKS = 0x5f0000000000ull;
constexpr size_t STACKS_SIZE = (size_t)MAX_FIBERS * 0x200000ull;

struct Cell
{
    u64 s[4];
    u32 pc[4];
    u32 state;      // arena only: 0 unallocated, 1..8 bytes valid, 0xFD freed
    u32 pad[3];
};
static_assert(sizeof(Cell) == 64, "cell");

static Cell* g_arena_cells;
static Cell* g_stack_cells;
static Cell* g_glob_cells;
static uintptr_t g_glob_lo, g_glob_hi;
static uintptr_t g_bump;
static u64 g_live_bytes, g_live_blocks;
static bool g_mem_ready = false;

struct Header
{
    u64 magic;
    u64 size;
    u32 pc_alloc, pc_free;
    u32 fid_alloc, fid_free;
};
constexpr u64 MAGIC_LIVE = 0xA110CA7ED5EEDull, MAGIC_FREE = 0xF4EEDF4EEDull;
static_assert(sizeof(Header) == 32, "header");

// ------------------------------------------------------------- symbols ----
struct Sym { uintptr_t lo, hi; const char* name; };
static std::vector<Sym>* g_syms;
static void load_syms()
{
    g_syms = new std::vector<Sym>();
    int fd = open("/proc/self/exe", O_RDONLY);
    if(fd < 0) return;
    struct stat st;
    fstat(fd, &st);
    u8* p = (u8*)mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
    ::close(fd);
    if(p == MAP_FAILED) return;
    auto* eh = (Elf64_Ehdr*)p;
    auto* sh = (Elf64_Shdr*)(p + eh->e_shoff);
    for(int i = 0; i < eh->e_shnum; ++i)
        if(sh[i].sh_type == SHT_SYMTAB)
        {
            auto* s = (Elf64_Sym*)(p + sh[i].sh_offset);
            const char* str = (const char*)(p + sh[sh[i].sh_link].sh_offset);
            for(size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); ++k)
                if(ELF64_ST_TYPE(s[k].st_info) == STT_FUNC && s[k].st_value)
                    g_syms->push_back({s[k].st_value, s[k].st_value + s[k].st_size, str + s[k].st_name});
        }
    std::sort(g_syms->begin(), g_syms->end(), [](const Sym& a, const Sym& b) { return a.lo < b.lo; });
}
std::string symbolize(uintptr_t pc)
{
    Harness h;
    if(!g_syms) load_syms();
    auto it = std::upper_bound(g_syms->begin(), g_syms->end(), pc, [](uintptr_t a, const Sym& s) { return a < s.lo; });
    if(it != g_syms->begin())
    {
        --it;
        if(pc < it->hi || it->hi == it->lo)
        {
            int st;
            char* d = abi::__cxa_demangle(it->name, nullptr, nullptr, &st);
            std::string n = d ? d : it->name;
            if(d) ::__libc_free(d);
            // compress
            size_t cut = n.size();
            int depth = 0;
            std::string o;
            for(size_t i = 0; i < cut; ++i)
            {
                if(n[i] == '<' && !(i >= 8 && n.compare(i - 8, 8, "operator") == 0)) { if(depth++ == 0) o += "<>"; continue; }
                if(n[i] == '>' && depth) { --depth; continue; }
                if(!depth) o += n[i];
            }
            if(o.size() > 110) o = o.substr(0, 110);
            return o;
        }
    }
    char b[32];
    snprintf(b, sizeof b, "0x%lx", (unsigned long)pc);
    return b;
}

// --------------------------------------------------------------- setup ----
void mem_init()
{
    void* a = mmap((void*)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if(a != (void*)ARENA) harness_error("arena mmap");
    auto shadow = [](uintptr_t at, size_t bytes) {
        void* r = mmap((void*)at, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if(r != (void*)at) harness_error("shadow mmap");
        return (Cell*)r;
    };
    g_arena_cells = shadow(0x6c0000000000ull, ARENA_SIZE * 8);
    g_stack_cells = shadow(0x6e0000000000ull, STACKS_SIZE * 8);
    g_glob_lo = (uintptr_t)__data_start & ~7ull;
    g_glob_hi = ((uintptr_t)_end + 7) & ~7ull;
    g_glob_cells = shadow(0x6d0000000000ull, ((g_glob_hi - g_glob_lo) * 8 + 4095) & ~4095ull);
    g_bump = ARENA + 64;
    g_mem_ready = true;
    __libc_single_threaded = 0;
}
void mem_register_stack(u8*, size_t) {}
bool in_arena(const void* p) { return (uintptr_t)p - ARENA < ARENA_SIZE; }
u64 sut_live_bytes() { return g_live_bytes; }
u64 sut_live_blocks() { return g_live_blocks; }

// ------------------------------------------------------- happens-before ---
struct SyncTab
{
    struct Ent { const void* k; VC* v; };
    std::vector<Ent> t;
    size_t n = 0;
    VC* find(const void* k)
    {
        if(t.empty()) return nullptr;
        size_t m = t.size() - 1, i = mix64((u64)k, 5) & m;
        while(t[i].k) { if(t[i].k == k) return t[i].v; i = (i + 1) & m; }
        return nullptr;
    }
    VC* get(const void* k)
    {
        if(VC* v = find(k)) return v;
        if(n * 2 >= t.size())
        {
            std::vector<Ent> o;
            o.swap(t);
            t.assign(std::max<size_t>(1024, o.size() * 2), Ent{nullptr, nullptr});
            for(auto& e : o) if(e.k) put(e);
        }
        VC* v = (VC*)calloc(1, sizeof(VC));
        put(Ent{k, v});
        ++n;
        return v;
    }
    void put(Ent e)
    {
        size_t m = t.size() - 1, i = mix64((u64)e.k, 5) & m;
        while(t[i].k) i = (i + 1) & m;
        t[i] = e;
    }
};
static SyncTab* g_sync;
static SyncTab& synctab() { if(!g_sync) g_sync = new SyncTab(); return *g_sync; }

void sync_acquire(const void* a) { if(VC* v = synctab().find(a)) g_cur->vc.join(*v); }
void sync_release(const void* a)
{
    if(g_cur->id < 0) return;
    synctab().get(a)->join(g_cur->vc);
    ++g_cur->vc.c[g_cur->id];
}
void sync_forget(const void* a) { if(VC* v = synctab().find(a)) v->clear(); }
void hb_fork(Fiber* p, Fiber* c)
{
    c->vc = p->vc;
    c->vc.c[c->id] = 1;
    if(p->id >= 0) ++p->vc.c[p->id];
}
void hb_join(Fiber* j, Fiber* d) { j->vc.join(d->vc); }

// ------------------------------------------------------------- accesses ---
static inline bool slot_w(u64 s) { return s & 2; }
static inline bool slot_a(u64 s) { return s & 1; }
static inline u32 slot_fid(u64 s) { return (s >> 2) & 63; }
static inline u32 slot_mask(u64 s) { return (s >> 8) & 255; }
static inline u32 slot_epoch(u64 s) { return (u32)(s >> 32); }

static std::string block_info(uintptr_t addr)
{
    // scan back for a header
    for(uintptr_t p = addr & ~15ull; p >= ARENA + 64 && p + (1 << 20) > addr; p -= 16)
    {
        auto* h = (Header*)(p - sizeof(Header));
        if((uintptr_t)h < ARENA) break;
        if(h->magic == MAGIC_LIVE || h->magic == MAGIC_FREE)
        {
            char b[160];
            snprintf(b, sizeof b, " [%s block of %llu bytes at offset %lld]", h->magic == MAGIC_LIVE ? "live" : "freed", (unsigned long long)h->size,
                     (long long)(addr - p));
            std::string s = b;
            s += " allocated in " + symbolize(h->pc_alloc);
            if(h->magic == MAGIC_FREE) s += ", freed in " + symbolize(h->pc_free);
            return s;
        }
    }
    return "";
}

static __attribute__((noinline)) void bad_access(uintptr_t addr, size_t size, bool write, uintptr_t pc, u32 state)
{
    ++g_depth;
    const char* k = state == 0xFD ? "heap-use-after-free" : "heap-out-of-bounds";
    std::string fn = symbolize(pc);
    std::string cls = std::string(k);
    fatal_violation("*", cls, std::string(k) + (write ? " write" : " read") + " of " + std::to_string(size) + " bytes in " + fn + block_info(addr) + "; stack: " + backtrace_here(0));
}

static __attribute__((noinline)) void race(u64 s, u32 pc1, bool w, bool a, uintptr_t pc2, uintptr_t addr)
{
    Harness h;
    std::string f1 = symbolize(pc1), f2 = symbolize(pc2);
    std::string d1 = std::string(slot_a(s) ? "atomic " : "") + (slot_w(s) ? "write" : "read");
    std::string d2 = std::string(a ? "atomic " : "") + (w ? "write" : "read");
    std::string x = std::min(f1, f2), y = std::max(f1, f2);
    violation("RACE", "data-race " + x + " | " + y,
              "unsynchronised " + d1 + " in " + f1 + " (thread f" + std::to_string(slot_fid(s)) + ") and " + d2 + " in " + f2 + " (thread f" +
                  std::to_string(g_cur->id) + ")" + (in_arena((void*)addr) ? block_info(addr) : "") + "; stack: " + backtrace_here(0));
}

static inline void cell_access(Cell& c, u32 mask, bool w, bool a, uintptr_t pc, uintptr_t addr)
{
    Fiber* f = g_cur;
    const u32 fid = (u32)f->id;
    const u32 ep = f->vc.c[fid];
    const u64 me = ((u64)ep << 32) | (mask << 8) | (fid << 2) | (w ? 2 : 0) | (a ? 1 : 0);
    int place = -1, hb = -1;
    for(int i = 0; i < 4; ++i)
    {
        const u64 s = c.s[i];
        if(s == me) return;
        if(!s) { if(place < 0) place = i; break; }
        const u32 sf = slot_fid(s);
        if(sf == fid)
        {
            // same thread: replace if we subsume it
            if((slot_mask(s) & ~mask) == 0 && (w || !slot_w(s)) && (!a || slot_a(s))) place = i;
            continue;
        }
        if(slot_epoch(s) <= f->vc.c[sf]) { if(hb < 0) hb = i; continue; }
        if((slot_mask(s) & mask) && (w || slot_w(s)) && !(a && slot_a(s)))
            race(s, c.pc[i], w, a, pc, addr);
    }
    if(place < 0) place = hb;
    if(place < 0) place = (int)(ep & 3);
    c.s[place] = me;
    c.pc[place] = (u32)pc;
}

static inline __attribute__((always_inline)) void access_impl(uintptr_t addr, size_t size, bool w, bool a, uintptr_t pc)
{
    Cell* cells;
    uintptr_t off;
    bool arena = false;
    if((off = addr - ARENA) < ARENA_SIZE) { cells = g_arena_cells; arena = true; }
    else if((off = addr - STACKS) < STACKS_SIZE)
    {
        cells = g_stack_cells;
    }
    else if(addr >= g_glob_lo && addr < g_glob_hi) { off = addr - g_glob_lo; cells = g_glob_cells; }
    else
    {
        if(addr < 4096) bad_access(addr, size, w, pc, 1);
        return;
    }
    uintptr_t lo = off, end = off + size;
    while(lo < end)
    {
        Cell& c = cells[lo >> 3];
        const u32 b = lo & 7;
        const u32 n = (u32)std::min<uintptr_t>(8 - b, end - lo);
        if(arena)
        {
            const u32 st = c.state;
            if(__builtin_expect(st > 8 || b + n > st, 0)) bad_access(ARENA + lo, size, w, pc, st);
        }
        cell_access(c, ((1u << n) - 1) << b, w, a, pc, addr);
        lo += n;
    }
}

void mem_access(uintptr_t addr, size_t size, bool write, bool atomic, uintptr_t pc)
{
    Harness h;
    access_impl(addr, size, write, atomic, pc);
}
void mem_check_live(uintptr_t addr, uintptr_t pc)
{
    uintptr_t off = addr - ARENA;
    if(off >= ARENA_SIZE) return;
    u32 st = g_arena_cells[off >> 3].state;
    if(st == 0 || st > 8) bad_access(addr, 8, true, pc, st);
}
void mem_range(const void* p, size_t size, bool write, const void* pc)
{
    if(!g_active || g_depth) return;
    Harness h;
    access_impl((uintptr_t)p, size, write, false, (uintptr_t)pc);
}

// ---------------------------------------------------------------- arena ---
void* arena_alloc(size_t size, size_t align, const void* pc)
{
    if(align < 16) align = 16;
    uintptr_t p = (g_bump + sizeof(Header) + align - 1) & ~(align - 1);
    uintptr_t end = p + ((size + 7) & ~7ull) + 24;
    end = (end + 15) & ~15ull;
    if(end >= ARENA + ARENA_SIZE) { g_end_reason = "arena exhausted"; run_abort(END_LIMIT); }
    g_bump = end;
    auto* h = (Header*)(p - sizeof(Header));
    h->magic = MAGIC_LIVE;
    h->size = size;
    h->pc_alloc = (u32)(uintptr_t)pc;
    h->fid_alloc = (u32)g_cur->id;
    h->pc_free = 0;
    Cell* c = &g_arena_cells[(p - ARENA) >> 3];
    size_t full = size / 8;
    for(size_t i = 0; i < full; ++i) c[i].state = 8;
    if(size % 8) c[full].state = size % 8;
    g_live_bytes += size;
    ++g_live_blocks;
    // fresh memory is poisoned with a pattern so that uninitialised reads are
    // deterministic and unlikely to look valid
    memset((void*)p, 0xBE, size);
    return (void*)p;
}
void arena_free(void* ptr, const void* pc, bool from_sut)
{
    uintptr_t p = (uintptr_t)ptr;
    auto* h = (Header*)(p - sizeof(Header));
    if(p < ARENA + 64 || h->magic != MAGIC_LIVE)
    {
        ++g_depth;
        const char* k = h->magic == MAGIC_FREE ? "double-free" : "invalid-free";
        fatal_violation("*", k, std::string(k) + " in " + symbolize((uintptr_t)pc) + block_info(p) + "; stack: " + backtrace_here(0));
    }
    if(from_sut && g_active && g_depth == 0 && h->size)
    {
        Harness hs;
        access_impl(p, h->size, true, false, (uintptr_t)pc);
    }
    h->magic = MAGIC_FREE;
    h->pc_free = (u32)(uintptr_t)pc;
    h->fid_free = g_cur ? (u32)g_cur->id : 99;
    Cell* c = &g_arena_cells[(p - ARENA) >> 3];
    for(size_t i = 0; i < (h->size + 7) / 8; ++i) c[i].state = 0xFD;
    g_live_bytes -= h->size;
    --g_live_blocks;
    // Scribble so that uninstrumented readers (libc, kernel stand-ins) see garbage
    memset(ptr, 0xDD, h->size);
}
size_t arena_usable(void* p) { return ((Header*)((uintptr_t)p - sizeof(Header)))->size; }
static inline bool from_exe(const void* pc) { return (char*)pc >= __executable_start && (char*)pc < etext; }
} // namespace sim

using namespace sim;
#define PC() __builtin_return_address(0)
#define SUTMODE() (g_active && g_depth == 0)

static inline void* do_new(size_t n, size_t al, const void* pc)
{
    if(SUTMODE()) { if(--g_quantum <= 0) preempt_slow(); return arena_alloc(n, al, pc); }
    void* p = al > 16 ? __libc_memalign(al, n) : __libc_malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    return p;
}
static inline void do_delete(void* p, const void* pc)
{
    if(!p) return;
    if(in_arena(p)) { if(SUTMODE() && --g_quantum <= 0) preempt_slow(); arena_free(p, pc, from_exe(pc)); return; }
    __libc_free(p);
}
void* operator new(size_t n) { return do_new(n, 16, PC()); }
void* operator new[](size_t n) { return do_new(n, 16, PC()); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, PC()); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, PC()); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, PC()); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, PC()); }
void operator delete(void* p) noexcept { do_delete(p, PC()); }
void operator delete[](void* p) noexcept { do_delete(p, PC()); }
void operator delete(void* p, size_t) noexcept { do_delete(p, PC()); }
void operator delete[](void* p, size_t) noexcept { do_delete(p, PC()); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p, PC()); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p, PC()); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p, PC()); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p, PC()); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, PC()); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p, PC()); }

extern "C" {
void free(void* p)
{
    if(!p) return;
    if(in_arena(p)) { arena_free(p, PC(), from_exe(PC())); return; }
    __libc_free(p);
}
void* aligned_alloc(size_t al, size_t n)
{
    if(SUTMODE()) return arena_alloc(n, al, PC());
    return __libc_memalign(al, n);
}
int posix_memalign(void** out, size_t al, size_t n)
{
    *out = SUTMODE() ? arena_alloc(n, al, PC()) : __libc_memalign(al, n);
    return *out ? 0 : ENOMEM;
}

#define HOT __attribute__((hot, noinline))
#define ACC(addr, size, w) do { if(g_depth) return; if(__builtin_expect(--g_quantum <= 0, 0)) preempt_slow(); ++g_depth; access_impl((uintptr_t)(addr), size, w, false, (uintptr_t)PC()); --g_depth; } while(0)

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    HOT void __tsan_read##n(void* a) { ACC(a, n, false); } \
    HOT void __tsan_write##n(void* a) { ACC(a, n, true); } \
    HOT void __tsan_unaligned_read##n(void* a) { ACC(a, n, false); } \
    HOT void __tsan_unaligned_write##n(void* a) { ACC(a, n, true); } \
    HOT void __tsan_volatile_read##n(void* a) { ACC(a, n, false); } \
    HOT void __tsan_volatile_write##n(void* a) { ACC(a, n, true); } \
    HOT void __tsan_read_write##n(void* a) { ACC(a, n, true); } \
    HOT void __tsan_unaligned_read_write##n(void* a) { ACC(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
HOT void __tsan_vptr_update(void** p, void* v) { if(*p == v) { ACC(p, 8, false); } else { ACC(p, 8, true); } }
HOT void __tsan_vptr_read(void** p) { ACC(p, 8, false); }
void __tsan_read_range(void* p, size_t n) { if(n) ACC(p, n, false); }
void __tsan_write_range(void* p, size_t n) { if(n) ACC(p, n, true); }

void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    if(!g_depth && n) { if(--g_quantum <= 0) preempt_slow(); mem_range(s, n, false, PC()); mem_range(d, n, true, PC()); }
    return __builtin_memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    if(!g_depth && n) { if(--g_quantum <= 0) preempt_slow(); mem_range(s, n, false, PC()); mem_range(d, n, true, PC()); }
    return __builtin_memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
    if(!g_depth && n) { if(--g_quantum <= 0) preempt_slow(); mem_range(d, n, true, PC()); }
    return __builtin_memset(d, c, n);
}

// ---- atomics
static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static inline void at_pre(const volatile void* a, size_t n, bool w, const void* pc)
{
    if(g_depth) return;
    if(--g_quantum <= 0) preempt_slow();
    ++g_depth;
    access_impl((uintptr_t)a, n, w, true, (uintptr_t)pc);
    --g_depth;
}
static inline void at_load(const volatile void* a, int mo)
{
    if(g_depth) return;
    ++g_depth;
    if(VC* v = synctab().find((const void*)a)) { if(is_acq(mo)) g_cur->vc.join(*v); else g_cur->acq_pending.join(*v); }
    --g_depth;
}
static inline void at_store(const volatile void* a, int mo)
{
    if(g_depth) return;
    ++g_depth;
    if(is_rel(mo)) sync_release((const void*)a);
    else synctab().get((const void*)a)->join(g_cur->rel_fence);
    --g_depth;
}
#define ATOMICS(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) { at_pre(a, sizeof(T), false, PC()); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_load(a, mo); return v; } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true, PC()); at_store(a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true, PC()); at_load(a, mo); at_store(a, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true, PC()); at_load(a, mo); at_store(a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true, PC()); at_load(a, mo); at_store(a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true, PC()); at_load(a, mo); at_store(a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true, PC()); at_load(a, mo); at_store(a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true, PC()); at_load(a, mo); at_store(a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true, PC()); at_load(a, mo); at_store(a, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) \
    { \
        at_pre(a, sizeof(T), true, PC()); \
        T x = *e; \
        bool ok = __atomic_compare_exchange_n(a, &x, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        at_load(a, ok ? mo : fmo); \
        if(ok) at_store(a, mo); else *e = x; \
        return ok; \
    } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
ATOMICS(8, u8)
ATOMICS(16, u16)
ATOMICS(32, u32)
ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int mo)
{
    if(g_depth) return;
    ++g_depth;
    if(is_acq(mo)) g_cur->vc.join(g_cur->acq_pending);
    if(is_rel(mo)) { g_cur->rel_fence = g_cur->vc; ++g_cur->vc.c[g_cur->id]; }
    --g_depth;
}
void __tsan_atomic_signal_fence(int) {}
} // extern "C"
