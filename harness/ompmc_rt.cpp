// A stand-in for the OpenMP runtime and the thread sanitizer runtime under
// which one thread runs at a time and every switch is decided by a plan.
//
// The code under test is compiled with -fopenmp -fsanitize=thread and linked
// with this file only, so that each parallel construct and each memory access
// ends up here. Constructs (critical, single, barrier, loop chunks) are
// decision points. Memory accesses are watched by a happens-before detector;
// places that turn out to take part in unordered conflicting accesses become
// decision points as well.
#include "ompmc.hpp"

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
void *__real_memcpy(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__real_memmove(void *, const void *, size_t);
}

namespace ompmc {
static const int MAXT = 4;

enum State { IDLE, READY, AT_BARRIER, AT_LOCK, DONE };

struct Lock {
    int owner = -1;
    uint32_t vc[MAXT] = {};
};
struct Pending {
    uintptr_t addr = 0, pc = 0;
    unsigned size  = 0;
    unsigned char old[16];
};
struct Thread {
    sem_t sem;
    pthread_t handle;
    bool started = false;
    State state  = IDLE;
    Lock *wants  = nullptr;
    uint32_t vc[MAXT] = {};
    unsigned singles = 0, loops = 0;
    // work sharing loops with chunks
    Pending pending;
};
struct Cell {
    uint32_t gen;
    uint32_t w[MAXT], r[MAXT], a[MAXT], val[MAXT]; // last write, read, atomic update, value written
    uintptr_t wpc[MAXT], rpc[MAXT], apc[MAXT];
};
static const size_t PAGE_CELLS = 1024; // cells of four bytes
struct Loop {
    long next, end, incr, chunk;
    bool guided;
};

static Plan *plan_     = nullptr;
static Record *rec_    = nullptr;
static int max_threads = 1;
static bool active     = false; // inside of a region with several threads
static int team        = 1;
static Thread th[MAXT];
static __thread int self_id = 0;
static void (*region_fn)(void *);
static void *region_data;
static uint32_t gen = 0;
static unsigned single_count, loop_count;
static Loop loop_;
static int last_run = 0; // thread that ran last, for round robin
static size_t next_dev = 0;
static uint64_t budget = 0;

static std::map<std::string, Lock> *named;
static std::map<void *, Lock> *by_address;
static Lock default_lock, atomic_lock;

// page table of shadow cells
struct PageEntry {
    uintptr_t page;
    Cell *cells;
};
static PageEntry *pages;
static const size_t PAGE_SLOTS = 1 << 16;

static unsigned char *visible_filter; // 64 Ki entries, by hash of the place
static inline unsigned hash_pc(uintptr_t pc)
{
    return (unsigned)((pc * 0x9E3779B97F4A7C15ull) >> 48);
}
static bool is_visible(uintptr_t pc)
{
    if (!visible_filter || !visible_filter[hash_pc(pc)]) {
        return false;
    }
    for (unsigned i = 0; i < plan_->n_visible; i++) {
        if (plan_->visible[i] == pc) {
            return true;
        }
    }
    return false;
}

static void quit(int status)
{
    rec_->status = status;
    _exit(0);
}
static inline void mix(uint64_t v)
{
    rec_->order ^= v + 0x9E3779B97F4A7C15ull + (rec_->order << 6) + (rec_->order >> 2);
}

// --- scheduling
static unsigned enabled_mask()
{
    unsigned m = 0;
    for (int t = 0; t < team; t++) {
        if (th[t].state == READY || (th[t].state == AT_LOCK && th[t].wants->owner < 0)) {
            m |= 1u << t;
        }
    }
    return m;
}
static int default_choice(unsigned mask, int me)
{
    bool can_stay = mask >> me & 1;
    switch (plan_->base) {
    case 0: // stay; else the lowest number
        if (can_stay) {
            return me;
        }
        return __builtin_ctz(mask);
    case 1: // stay; else the highest number
        if (can_stay) {
            return me;
        }
        return 31 - __builtin_clz(mask);
    default: // take turns at every decision
        for (int k = 1; k <= team; k++) {
            int t = (me + k) % team;
            if (mask >> t & 1) {
                return t;
            }
        }
    }
    return me;
}
// Hand the baton on. Returns when this thread may go on.
static void schedule(bool finished = false)
{
    int me        = self_id;
    unsigned mask = enabled_mask();
    if (mask == 0) {
        bool all_done = true;
        for (int t = 0; t < team; t++) {
            all_done = all_done && th[t].state == DONE;
        }
        if (!all_done) {
            quit(DEADLOCK);
        }
        // region is over; wake the master
        if (me != 0) {
            sem_post(&th[0].sem);
        }
        return;
    }
    int go = default_choice(mask, me);
    if (mask & (mask - 1)) {
        uint32_t i = rec_->n_decisions;
        if (next_dev < plan_->n_dev && plan_->dev[next_dev].at == i) {
            int alt = plan_->dev[next_dev].thread;
            if (!(mask >> alt & 1)) {
                quit(BAD_PLAN);
            }
            go = alt;
            next_dev++;
        }
        if (i >= MAX_DECISIONS) {
            quit(TOO_LONG);
        }
        rec_->decisions[i].mask   = mask;
        rec_->decisions[i].chosen = go;
        rec_->n_decisions         = i + 1;
    }
    if (go != me) {
        rec_->switches++;
        sem_post(&th[go].sem);
        if (!finished) {
            while (sem_wait(&th[me].sem) != 0) {
            }
        } else if (me == 0) {
            // the master waits for the region to end
            while (sem_wait(&th[0].sem) != 0) {
            }
        }
    }
}
static void tick(int t)
{
    th[t].vc[t]++;
}
static void join_vc(uint32_t *to, const uint32_t *from)
{
    for (int i = 0; i < MAXT; i++) {
        if (from[i] > to[i]) {
            to[i] = from[i];
        }
    }
}

// --- watching memory
static Cell *cell_of(uintptr_t a)
{
    uintptr_t page = a >> 12;
    size_t h       = (page * 0x9E3779B97F4A7C15ull) >> 48;
    while (pages[h].page != page) {
        if (!pages[h].page) {
            pages[h].page  = page;
            pages[h].cells = (Cell *)mmap(nullptr, sizeof(Cell) * PAGE_CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            break;
        }
        h = (h + 1) % PAGE_SLOTS;
    }
    Cell *c = pages[h].cells + ((a & 4095) >> 2);
    if (c->gen != gen) {
        __real_memset(c, 0, sizeof(Cell));
        c->gen = gen;
    }
    return c;
}
static void report(uintptr_t pc)
{
    if (!pc) {
        return;
    }
    for (unsigned i = 0; i < rec_->n_sites; i++) {
        if (rec_->sites[i] == pc) {
            return;
        }
    }
    if (rec_->n_sites < MAX_SITES) {
        rec_->sites[rec_->n_sites++] = pc;
    }
}
static void conflict(uintptr_t a, uintptr_t b)
{
    rec_->conflicts++;
    report(a);
    report(b);
}
static inline uint32_t load4(uintptr_t a)
{
    return *(volatile uint32_t *)a;
}
static void on_read(int t, uintptr_t cell_addr, uintptr_t pc)
{
    Cell *c = cell_of(cell_addr);
    for (int u = 0; u < team; u++) {
        if (u != t && c->w[u] > th[t].vc[u]) {
            // unordered with a write. Harmless if this thread has written the same itself.
            if (c->w[t] && c->val[t] == c->val[u]) {
                continue;
            }
            conflict(c->wpc[u], pc);
        }
        if (u != t && c->a[u] > th[t].vc[u]) {
            conflict(c->apc[u], pc);
        }
    }
    c->r[t]   = th[t].vc[t];
    c->rpc[t] = pc;
}
static void on_write(int t, uintptr_t cell_addr, uintptr_t pc, bool changed)
{
    Cell *c      = cell_of(cell_addr);
    uint32_t val = load4(cell_addr);
    for (int u = 0; u < team; u++) {
        if (u == t) {
            continue;
        }
        if (c->w[u] > th[t].vc[u] && c->val[u] != val) {
            conflict(c->wpc[u], pc);
        }
        if (changed && c->r[u] > th[t].vc[u]) {
            if (!(c->w[u] && c->val[u] == val)) {
                conflict(c->rpc[u], pc);
            }
        }
        if (c->a[u] > th[t].vc[u]) {
            conflict(c->apc[u], pc);
        }
    }
    c->w[t]   = th[t].vc[t];
    c->val[t] = val;
    c->wpc[t] = pc;
}
static void settle(int t)
{
    Pending &p = th[t].pending;
    if (!p.size) {
        return;
    }
    uintptr_t a = p.addr, end = p.addr + p.size;
    bool changed = memcmp(p.old, (void *)a, p.size) != 0;
    p.size = 0;
    for (uintptr_t x = a & ~3ull; x < end; x += 4) {
        on_write(t, x, p.pc, changed);
    }
}
static inline void access(const void *addr, unsigned size, bool write, uintptr_t pc)
{
    if (!active) {
        return;
    }
    int t = self_id;
    settle(t);
    rec_->accesses++;
    if (budget && --budget == 0) {
        quit(TOO_LONG);
    }
    if (is_visible(pc)) {
        schedule();
    }
    uintptr_t a = (uintptr_t)addr;
    if (write) {
        Pending &p = th[t].pending;
        p.addr     = a;
        p.size     = size;
        p.pc       = pc;
        __real_memcpy(p.old, addr, size);
    } else {
        for (uintptr_t x = a & ~3ull; x < a + size; x += 4) {
            on_read(t, x, pc);
        }
    }
}
static void range(const void *addr, size_t size, bool write, uintptr_t pc)
{
    if (!active || size == 0) {
        return;
    }
    int t = self_id;
    settle(t);
    rec_->accesses++;
    if (is_visible(pc)) {
        schedule();
    }
    uintptr_t a = (uintptr_t)addr;
    for (uintptr_t x = a & ~3ull; x < a + size; x += 4) {
        if (write) {
            on_write(t, x, pc, true);
        } else {
            on_read(t, x, pc);
        }
    }
}
// a construct: settle what is pending and let others go first
static void construct(uint64_t)
{
    settle(self_id);
    if (budget && budget < 1000) {
        quit(TOO_LONG);
    }
    budget -= budget ? 100 : 0;
    schedule();
}
static void acquire(Lock &l, uint64_t name)
{
    int t = self_id;
    construct(name);
    while (l.owner >= 0) {
        th[t].state = AT_LOCK;
        th[t].wants = &l;
        if (l.owner == t) {
            quit(DEADLOCK);
        }
        schedule();
        th[t].state = READY;
    }
    th[t].state = READY;
    l.owner     = t;
    join_vc(th[t].vc, l.vc);
    mix(name * 31 + t + 1);
}
static void release(Lock &l)
{
    int t = self_id;
    settle(t);
    join_vc(l.vc, th[t].vc);
    tick(t);
    l.owner = -1;
}
static void barrier()
{
    int t = self_id;
    settle(t);
    th[t].state  = AT_BARRIER;
    bool all     = true;
    bool missing = false;
    for (int u = 0; u < team; u++) {
        all     = all && th[u].state == AT_BARRIER;
        missing = missing || th[u].state == DONE;
    }
    if (missing) {
        quit(DEADLOCK); // somebody left without passing here
    }
    if (all) {
        uint32_t vc[MAXT] = {};
        for (int u = 0; u < team; u++) {
            join_vc(vc, th[u].vc);
        }
        for (int u = 0; u < team; u++) {
            join_vc(th[u].vc, vc);
            tick(u);
            th[u].state = READY;
        }
    }
    schedule();
}
static void finish_thread()
{
    int t = self_id;
    settle(t);
    for (int u = 0; u < team; u++) {
        if (th[u].state == AT_BARRIER) {
            quit(DEADLOCK);
        }
    }
    th[t].state = DONE;
    schedule(true);
}
static void *worker(void *arg)
{
    self_id = (int)(intptr_t)arg;
    for (;;) {
        while (sem_wait(&th[self_id].sem) != 0) {
        }
        region_fn(region_data);
        finish_thread();
    }
    return nullptr;
}
static void parallel(void (*fn)(void *), void *data, unsigned n)
{
    if (n == 0) {
        n = max_threads;
    }
    if (n > (unsigned)max_threads) {
        n = max_threads;
    }
    if (active || n < 2 || !rec_) {
        // serial: a team of one
        fn(data);
        return;
    }
    team        = n;
    region_fn   = fn;
    region_data = data;
    gen++;
    single_count = loop_count = 0;
    rec_->regions++;
    for (int t = 0; t < team; t++) {
        if (t > 0 && !th[t].started) {
            sem_init(&th[t].sem, 0, 0);
            th[t].started = true;
            if (pthread_create(&th[t].handle, nullptr, worker, (void *)(intptr_t)t)) {
                quit(BAD_PLAN);
            }
        }
        th[t].state   = READY;
        th[t].singles = th[t].loops = 0;
        for (int u = 0; u < MAXT; u++) {
            th[t].vc[u] = 0;
        }
        th[t].vc[t]        = 1;
        th[t].pending.size = 0;
    }
    default_lock = atomic_lock = Lock();
    if (named) {
        named->clear();
    }
    active = true;
    schedule(); // anybody may start
    fn(data);
    finish_thread();
    // the last one to finish wakes the master
    for (int t = 0; t < team; t++) {
        if (th[t].state != DONE) {
            quit(BAD_PLAN);
        }
    }
    active = false;
    for (int t = 0; t < team; t++) {
        th[t].state = IDLE;
    }
    team = 1;
}

// --- interface for the harness
void set_threads(int n)
{
    max_threads = n;
}
int threads()
{
    return max_threads;
}
void begin(Plan *p, Record *r)
{
    plan_       = p;
    rec_        = r;
    next_dev    = 0;
    budget      = p->budget;
    named       = new std::map<std::string, Lock>;
    by_address  = new std::map<void *, Lock>;
    pages       = (PageEntry *)mmap(nullptr, sizeof(PageEntry) * PAGE_SLOTS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    visible_filter = (unsigned char *)calloc(1 << 16, 1);
    for (unsigned i = 0; i < p->n_visible; i++) {
        visible_filter[hash_pc(p->visible[i])] = 1;
    }
    sem_init(&th[0].sem, 0, 0);
}
} // namespace ompmc

using namespace ompmc;

// --- memory from the heap: nothing is known about a new block
void *operator new(size_t n)
{
    void *p = malloc(n ? n : 1);
    if (!p) {
        throw std::bad_alloc();
    }
    if (active) {
        settle(self_id);
        uintptr_t a = (uintptr_t)p;
        for (uintptr_t x = a & ~3ull; x < a + n; x += 4) {
            cell_of(x)->gen = 0;
        }
    }
    return p;
}
void *operator new[](size_t n)
{
    return operator new(n);
}
static inline void drop(void *p)
{
    if (active && p) {
        settle(self_id);
    }
    free(p);
}
void operator delete(void *p) noexcept
{
    drop(p);
}
void operator delete[](void *p) noexcept
{
    drop(p);
}
void operator delete(void *p, size_t) noexcept
{
    drop(p);
}
void operator delete[](void *p, size_t) noexcept
{
    drop(p);
}

#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
// --- OpenMP
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned)
{
    parallel(fn, data, n);
}
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned)
{
    fprintf(stderr, "task reductions are not supported\n");
    _exit(9);
}
int omp_get_thread_num()
{
    return active ? self_id : 0;
}
int omp_get_num_threads()
{
    return active ? team : 1;
}
int omp_get_max_threads()
{
    return max_threads;
}
int omp_get_num_procs()
{
    return max_threads;
}
int omp_in_parallel()
{
    return active;
}
void omp_set_num_threads(int)
{
}
void omp_set_dynamic(int)
{
}
int omp_get_dynamic()
{
    return 0;
}
int omp_get_thread_limit()
{
    return MAXT;
}
int omp_get_level()
{
    return active;
}
double omp_get_wtime()
{
    return 0.0;
}
double omp_get_wtick()
{
    return 1.0;
}
void GOMP_barrier()
{
    if (active) {
        barrier();
    }
}
bool GOMP_barrier_cancel()
{
    GOMP_barrier();
    return false;
}
void GOMP_critical_start()
{
    if (active) {
        acquire(default_lock, 1);
    }
}
void GOMP_critical_end()
{
    if (active) {
        release(default_lock);
    }
}
void GOMP_critical_name_start(void **p)
{
    if (active) {
        acquire((*by_address)[p], 2);
    }
}
void GOMP_critical_name_end(void **p)
{
    if (active) {
        release((*by_address)[p]);
    }
}
void GOMP_atomic_start()
{
    if (active) {
        acquire(atomic_lock, 3);
    }
}
void GOMP_atomic_end()
{
    if (active) {
        release(atomic_lock);
    }
}
struct omp_lock_s;
void omp_init_lock(void *)
{
}
void omp_destroy_lock(void *)
{
}
void omp_set_lock(void *p)
{
    if (active) {
        acquire((*by_address)[p], 4);
    }
}
void omp_unset_lock(void *p)
{
    if (active) {
        release((*by_address)[p]);
    }
}
bool GOMP_single_start()
{
    if (!active) {
        return true;
    }
    construct(5);
    unsigned mine = ++th[self_id].singles;
    if (mine > single_count) {
        single_count = mine;
        mix(700 + self_id);
        return true;
    }
    return false;
}
static void *copy_data;
void *GOMP_single_copy_start()
{
    if (GOMP_single_start()) {
        return nullptr;
    }
    GOMP_barrier();
    return copy_data;
}
void GOMP_single_copy_end(void *p)
{
    copy_data = p;
    GOMP_barrier();
}
// loops with chunks handed out
static bool loop_take(long *a, long *b)
{
    if (loop_.incr > 0 ? loop_.next >= loop_.end : loop_.next <= loop_.end) {
        return false;
    }
    *a = loop_.next;
    *b = loop_.next + loop_.chunk * loop_.incr;
    if (loop_.incr > 0 ? *b > loop_.end : *b < loop_.end) {
        *b = loop_.end;
    }
    loop_.next = *b;
    mix(800 + self_id);
    return true;
}
static bool loop_start(long start, long end, long incr, long chunk, long *a, long *b)
{
    if (active) {
        construct(6);
        unsigned mine = ++th[self_id].loops;
        if (mine > loop_count) {
            loop_count = mine;
            loop_      = {start, end, incr, chunk < 1 ? 1 : chunk, false};
        }
    } else {
        loop_ = {start, end, incr, 1L << 40, false};
        if (incr != 1 && incr != -1) {
            loop_.chunk = 1L << 30;
        }
    }
    return loop_take(a, b);
}
static bool loop_next(long *a, long *b)
{
    if (active) {
        construct(6);
    }
    return loop_take(a, b);
}
#define LOOPS(kind)                                                                                      \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *a, long *b)                       \
    {                                                                                                    \
        return loop_start(s, e, i, c, a, b);                                                             \
    }                                                                                                    \
    bool GOMP_loop_##kind##_next(long *a, long *b)                                                        \
    {                                                                                                    \
        return loop_next(a, b);                                                                          \
    }
LOOPS(dynamic)
LOOPS(nonmonotonic_dynamic)
LOOPS(guided)
LOOPS(nonmonotonic_guided)
LOOPS(static)
bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b)
{
    return loop_start(s, e, i, 1, a, b);
}
bool GOMP_loop_runtime_next(long *a, long *b)
{
    return loop_next(a, b);
}
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b)
{
    return loop_start(s, e, i, 1, a, b);
}
bool GOMP_loop_nonmonotonic_runtime_next(long *a, long *b)
{
    return loop_next(a, b);
}
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b)
{
    return loop_start(s, e, i, 1, a, b);
}
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b)
{
    return loop_next(a, b);
}
void GOMP_loop_end()
{
    GOMP_barrier();
}
void GOMP_loop_end_nowait()
{
}
#define PARALLEL_LOOP(kind)                                                                              \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, long s, long e, long i,    \
                                   long c, unsigned)                                                     \
    {                                                                                                    \
        pre_loop = {s, e, i, c < 1 ? 1 : c, false};                                                      \
        parallel_loop(fn, data, n);                                                                      \
    }
static Loop pre_loop;
static void parallel_loop(void (*fn)(void *), void *data, unsigned n)
{
    loop_ = pre_loop;
    parallel(fn, data, n);
}
PARALLEL_LOOP(dynamic)
PARALLEL_LOOP(nonmonotonic_dynamic)
PARALLEL_LOOP(guided)
PARALLEL_LOOP(nonmonotonic_guided)
PARALLEL_LOOP(static)

// sections
static unsigned sections_left, sections_next;
unsigned GOMP_sections_start(unsigned n)
{
    long a, b;
    return loop_start(1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0;
}
unsigned GOMP_sections_next()
{
    long a, b;
    return loop_next(&a, &b) ? (unsigned)a : 0;
}
void GOMP_sections_end()
{
    GOMP_barrier();
}
void GOMP_sections_end_nowait()
{
}
// tasks run at once
void GOMP_task(void (*fn)(void *), void *data, void (*copy)(void *, void *), long size, long align, bool, unsigned, void **, int)
{
    if (copy) {
        char *buf = (char *)malloc(size + align);
        char *arg = (char *)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1));
        copy(arg, data);
        fn(arg);
        free(buf);
    } else {
        fn(data);
    }
}
void GOMP_taskwait()
{
}
void GOMP_taskyield()
{
    if (active) {
        construct(7);
    }
}
void GOMP_taskgroup_start()
{
}
void GOMP_taskgroup_end()
{
}

// --- thread sanitizer
void __tsan_init()
{
}
void __tsan_func_entry(void *)
{
}
void __tsan_func_exit()
{
}
#define RW(n)                                                                                            \
    void __tsan_read##n(void *a)                                                                         \
    {                                                                                                    \
        access(a, n, false, PC);                                                                         \
    }                                                                                                    \
    void __tsan_write##n(void *a)                                                                        \
    {                                                                                                    \
        access(a, n, true, PC);                                                                          \
    }                                                                                                    \
    void __tsan_unaligned_read##n(void *a)                                                               \
    {                                                                                                    \
        access(a, n, false, PC);                                                                         \
    }                                                                                                    \
    void __tsan_unaligned_write##n(void *a)                                                              \
    {                                                                                                    \
        access(a, n, true, PC);                                                                          \
    }                                                                                                    \
    void __tsan_volatile_read##n(void *a)                                                                \
    {                                                                                                    \
        access(a, n, false, PC);                                                                         \
    }                                                                                                    \
    void __tsan_volatile_write##n(void *a)                                                               \
    {                                                                                                    \
        access(a, n, true, PC);                                                                          \
    }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n)
{
    range(a, n, false, PC);
}
void __tsan_write_range(void *a, size_t n)
{
    range(a, n, true, PC);
}
void __tsan_vptr_update(void **a, void *)
{
    access(a, 8, true, PC);
}
void __tsan_vptr_read(void **a)
{
    access(a, 8, false, PC);
}
// Atomic operations happen in one go and commute as far as the results go.
// They are recorded as accesses of their own kind: only a mixture with plain
// accesses is a conflict.
static void atomic_access(volatile void *addr, unsigned size, bool write, uintptr_t pc);
#define ATOMIC(bits, T)                                                                                  \
    T __tsan_atomic##bits##_load(const volatile T *a, int)                                               \
    {                                                                                                    \
        atomic_access((volatile void *)a, bits / 8, false, PC);                                          \
        return *a;                                                                                       \
    }                                                                                                    \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int)                                            \
    {                                                                                                    \
        atomic_access(a, bits / 8, true, PC);                                                            \
        *a = v;                                                                                          \
    }                                                                                                    \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int)                                            \
    {                                                                                                    \
        atomic_access(a, bits / 8, true, PC);                                                            \
        T o = *a;                                                                                        \
        *a  = v;                                                                                         \
        return o;                                                                                        \
    }                                                                                                    \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int)                                           \
    {                                                                                                    \
        atomic_access(a, bits / 8, true, PC);                                                            \
        T o = *a;                                                                                        \
        *a  = o + v;                                                                                     \
        return o;                                                                                        \
    }                                                                                                    \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int)                                           \
    {                                                                                                    \
        atomic_access(a, bits / 8, true, PC);                                                            \
        T o = *a;                                                                                        \
        *a  = o - v;                                                                                     \
        return o;                                                                                        \
    }                                                                                                    \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int)                                           \
    {                                                                                                    \
        atomic_access(a, bits / 8, true, PC);                                                            \
        T o = *a;                                                                                        \
        *a  = o & v;                                                                                     \
        return o;                                                                                        \
    }                                                                                                    \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int)                                            \
    {                                                                                                    \
        atomic_access(a, bits / 8, true, PC);                                                            \
        T o = *a;                                                                                        \
        *a  = o | v;                                                                                     \
        return o;                                                                                        \
    }                                                                                                    \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int)                                           \
    {                                                                                                    \
        atomic_access(a, bits / 8, true, PC);                                                            \
        T o = *a;                                                                                        \
        *a  = o ^ v;                                                                                     \
        return o;                                                                                        \
    }                                                                                                    \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int)                                          \
    {                                                                                                    \
        atomic_access(a, bits / 8, true, PC);                                                            \
        T o = *a;                                                                                        \
        *a  = ~(o & v);                                                                                  \
        return o;                                                                                        \
    }                                                                                                    \
    bool __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int, int)               \
    {                                                                                                    \
        atomic_access(a, bits / 8, true, PC);                                                            \
        T o = *a;                                                                                        \
        if (o == *e) {                                                                                   \
            *a = v;                                                                                      \
            return true;                                                                                 \
        }                                                                                                \
        *e = o;                                                                                          \
        return false;                                                                                    \
    }                                                                                                    \
    bool __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int x, int y)             \
    {                                                                                                    \
        return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, x, y);                             \
    }                                                                                                    \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int, int)                      \
    {                                                                                                    \
        atomic_access(a, bits / 8, true, PC);                                                            \
        T o = *a;                                                                                        \
        if (o == e) {                                                                                    \
            *a = v;                                                                                      \
        }                                                                                                \
        return o;                                                                                        \
    }
typedef unsigned __int128 u128;
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t) ATOMIC(128, u128)
void __tsan_atomic_thread_fence(int)
{
}
void __tsan_atomic_signal_fence(int)
{
}
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
    if (active) {
        range(s, n, false, PC);
        range(d, n, false, 0);
    }
    void *r = __real_memcpy(d, s, n);
    if (active) {
        range(d, n, true, PC);
    }
    return r;
}
void *__wrap_memmove(void *d, const void *s, size_t n)
{
    if (active) {
        range(s, n, false, PC);
    }
    void *r = __real_memmove(d, s, n);
    if (active) {
        range(d, n, true, PC);
    }
    return r;
}
void *__wrap_memset(void *d, int v, size_t n)
{
    bool same = active;
    for (size_t i = 0; same && i < n; i++) {
        same = ((unsigned char *)d)[i] == (unsigned char)v;
    }
    if (active) {
        int t = self_id;
        settle(t);
        if (is_visible(PC)) {
            schedule();
        }
    }
    void *r = __real_memset(d, v, n);
    if (active) {
        uintptr_t a = (uintptr_t)d;
        for (uintptr_t x = a & ~3ull; x < a + n; x += 4) {
            on_write(self_id, x, PC, !same);
        }
    }
    return r;
}
}
static void atomic_access(volatile void *addr, unsigned size, bool write, uintptr_t pc)
{
    if (!active) {
        return;
    }
    int t = self_id;
    settle(t);
    rec_->accesses++;
    if (budget && --budget == 0) {
        quit(TOO_LONG);
    }
    if (is_visible(pc)) {
        schedule();
    }
    uintptr_t a = (uintptr_t)addr;
    for (uintptr_t x = a & ~3ull; x < a + size; x += 4) {
        Cell *c = cell_of(x);
        for (int u = 0; u < team; u++) {
            if (u != t && c->w[u] > th[t].vc[u]) {
                conflict(c->wpc[u], pc);
            }
            if (write && u != t && c->r[u] > th[t].vc[u]) {
                conflict(c->rpc[u], pc);
            }
        }
        if (write) {
            c->a[t]   = th[t].vc[t];
            c->apc[t] = pc;
        }
    }
}
