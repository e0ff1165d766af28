// A small OpenMP run-time (the GOMP ABI), used in place of libgomp so that
//  - ThreadSanitizer sees every synchronisation the program really makes and
//    none that it does not (libgomp itself is not instrumented), and
//  - the division of work between threads is perturbed: chunks of dynamic
//    loops are handed out in a random order and threads are delayed at random.
// pbt_shim_force() fixes the number of threads of every region that does not
// ask for a number of its own; pbt_shim_seed() selects the schedule.
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>

namespace {

const long kSlots = 1 << 16;

struct Loop { long start, end, incr, chunk; };

struct Team
{
    int n, level;
    void (*fn)(void*);
    void* data;
    pthread_barrier_t bar;
    long* slots;      // one hand-out counter per work-sharing construct
    int* singles;
    void** copies;
    bool has_loop;
    Loop loop;
    uint64_t seed;
    void* parent_data;
};

struct Self
{
    Team* team;
    int num;
    long ws;          // work-sharing constructs met so far
    Loop loop;
    bool mono;
    uint64_t rnd;
};

thread_local Self tls = {nullptr, 0, 0, {0, 0, 1, 1}, false, 1};
thread_local long* lone_slots = nullptr;

thread_local int my_threads = 0;   // each caller has its own number of threads
std::atomic<int> g_threads(0), g_forced(0), g_levels(1);
std::atomic<uint64_t> g_seed(1);
std::atomic<uint64_t> g_region(0);

int default_threads()
{
    if (!g_threads)
    {
        const char* e = getenv("OMP_NUM_THREADS");
        int n = e ? atoi(e) : (int) sysconf(_SC_NPROCESSORS_ONLN);
        g_threads = n < 1 ? 1 : n;
    }
    return g_forced > 0 ? g_forced.load() : my_threads > 0 ? my_threads : g_threads.load();
}

uint64_t next_rnd()
{
    uint64_t x = tls.rnd;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    return tls.rnd = x;
}

void pause_at_random()
{
    if (!tls.team || tls.team->n < 2) return;
    const uint64_t x = next_rnd();
    if (x % 4 == 0) sched_yield();
    if (x % 64 == 1) usleep(x % 200);
}

struct Start { Team* team; int num; };

void run_member(Team* t, int num)
{
    const Self saved = tls;
    tls.team = t;
    tls.num = num;
    tls.ws = 0;
    tls.mono = false;
    tls.rnd = (t->seed + 1) * 0x9E3779B97F4A7C15ull + (uint64_t) num * 0xBF58476D1CE4E5B9ull + 1;
    if (t->has_loop) { tls.loop = t->loop; tls.ws = 1; }
    pause_at_random();
    t->fn(t->data);
    tls = saved;
}

void* member(void* arg)
{
    Start* s = (Start*) arg;
    run_member(s->team, s->num);
    return nullptr;
}

void parallel(void (*fn)(void*), void* data, unsigned num_threads, const Loop* loop)
{
    const int level = tls.team ? tls.team->level + (tls.team->n > 1 ? 1 : 0) : 0;
    int n = num_threads ? (int) num_threads : default_threads();
    if (level >= g_levels) n = 1;
    Team t;
    t.n = n;
    t.level = level;
    t.fn = fn;
    t.data = data;
    t.slots = (long*) calloc(kSlots, sizeof(long));
    t.singles = (int*) calloc(kSlots, sizeof(int));
    t.copies = (void**) calloc(1, sizeof(void*));
    t.has_loop = loop != nullptr;
    if (loop) t.loop = *loop;
    t.seed = g_seed * 1000003u + g_region.fetch_add(1, std::memory_order_relaxed);
    pthread_barrier_init(&t.bar, nullptr, n);
    Start* s = (Start*) calloc(n, sizeof(Start));
    pthread_t* id = (pthread_t*) calloc(n, sizeof(pthread_t));
    for (int i = 1; i < n; ++i)
    {
        s[i] = {&t, i};
        if (pthread_create(&id[i], nullptr, member, &s[i]))
        {
            fprintf(stderr, "ompshim: no thread\n");
            abort();
        }
    }
    run_member(&t, 0);
    for (int i = 1; i < n; ++i) pthread_join(id[i], nullptr);
    pthread_barrier_destroy(&t.bar);
    free(s);
    free(id);
    free(t.slots);
    free(t.singles);
    free(t.copies);
}

long* slot()   // of the current work-sharing construct
{
    if (!tls.team)
    {
        if (!lone_slots) lone_slots = (long*) calloc(1, sizeof(long));
        return lone_slots;
    }
    if (tls.ws >= kSlots) { fprintf(stderr, "ompshim: too many loops\n"); abort(); }
    return tls.team->slots + tls.ws;
}

bool hand_out(long* istart, long* iend)
{
    const Loop& l = tls.loop;
    const long span = l.incr > 0 ? l.end - l.start : l.start - l.end;
    if (span <= 0) return false;
    const long inc = l.incr > 0 ? l.incr : -l.incr;
    const long iters = (span + inc - 1) / inc;
    const long chunk = l.chunk > 0 ? l.chunk : 1;
    const long chunks = (iters + chunk - 1) / chunk;
    pause_at_random();
    // relaxed: handing out work synchronises nothing
    long k = __atomic_fetch_add(slot(), 1, __ATOMIC_RELAXED);
    if (k >= chunks) return false;
    if (!tls.mono && tls.team && tls.team->n > 1)
    {
        // a permutation of the chunks: rotate, and reverse for odd seeds
        const uint64_t sd = tls.team->seed;
        k = (long) ((k + (uint64_t) (sd / 2)) % (uint64_t) chunks);
        if (sd & 1) k = chunks - 1 - k;
    }
    const long a = k * chunk, b = a + chunk < iters ? a + chunk : iters;
    *istart = l.start + a * l.incr;
    *iend = l.start + b * l.incr;
    return true;
}

bool loop_start(long start, long end, long incr, long chunk, long* is, long* ie, bool mono)
{
    tls.ws++;
    tls.loop = {start, end, incr, chunk};
    tls.mono = mono;
    if (!tls.team) *slot() = 0;
    return hand_out(is, ie);
}

void barrier()
{
    if (tls.team && tls.team->n > 1)
    {
        pause_at_random();
        pthread_barrier_wait(&tls.team->bar);
    }
}

pthread_mutex_t* named(void** p)
{
    void* m = __atomic_load_n(p, __ATOMIC_ACQUIRE);
    if (!m)
    {
        pthread_mutex_t* n = (pthread_mutex_t*) malloc(sizeof(pthread_mutex_t));
        pthread_mutex_init(n, nullptr);
        if (__atomic_compare_exchange_n(p, &m, n, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE))
            m = n;
        else
            free(n);
    }
    return (pthread_mutex_t*) m;
}

void* unnamed_critical = nullptr;
void* atomic_region = nullptr;

const unsigned kLocks = 1 << 16;
pthread_mutex_t* locks[kLocks];
unsigned char lock_used[kLocks];
unsigned lock_next = 1;
pthread_mutex_t lock_table = PTHREAD_MUTEX_INITIALIZER;

} // namespace

extern "C" {

void pbt_shim_force(int n) { default_threads(); g_forced = n; }
void pbt_shim_seed(unsigned long s) { g_seed = s; g_region.store(0); }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned)
{
    parallel(fn, data, n, nullptr);
}

#define PARALLEL_LOOP(NAME) \
void NAME(void (*fn)(void*), void* data, unsigned n, \
        long start, long end, long incr, long chunk, unsigned) \
{ \
    Loop l = {start, end, incr, chunk}; \
    parallel(fn, data, n, &l); \
}
PARALLEL_LOOP(GOMP_parallel_loop_dynamic)
PARALLEL_LOOP(GOMP_parallel_loop_guided)
PARALLEL_LOOP(GOMP_parallel_loop_nonmonotonic_dynamic)
PARALLEL_LOOP(GOMP_parallel_loop_nonmonotonic_guided)
PARALLEL_LOOP(GOMP_parallel_loop_static)

void GOMP_parallel_loop_runtime(void (*fn)(void*), void* data, unsigned n,
        long start, long end, long incr, unsigned)
{
    Loop l = {start, end, incr, 1};
    parallel(fn, data, n, &l);
}
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* data, unsigned n,
        long start, long end, long incr, unsigned)
{
    Loop l = {start, end, incr, 1};
    parallel(fn, data, n, &l);
}
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* data, unsigned n,
        long start, long end, long incr, unsigned)
{
    Loop l = {start, end, incr, 1};
    parallel(fn, data, n, &l);
}

#define LOOP(NAME, MONO) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* is, long* ie) \
{ \
    return loop_start(s, e, i, c, is, ie, MONO); \
} \
bool GOMP_loop_##NAME##_next(long* is, long* ie) { return hand_out(is, ie); }
LOOP(dynamic, true)
LOOP(guided, true)
LOOP(static, true)
LOOP(nonmonotonic_dynamic, false)
LOOP(nonmonotonic_guided, false)

#define LOOP_RT(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long* is, long* ie) \
{ \
    return loop_start(s, e, i, 1, is, ie, true); \
} \
bool GOMP_loop_##NAME##_next(long* is, long* ie) { return hand_out(is, ie); }
LOOP_RT(runtime)
LOOP_RT(nonmonotonic_runtime)
LOOP_RT(maybe_nonmonotonic_runtime)

// loops over unsigned long long
#define LOOP_ULL(NAME, MONO) \
bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, \
        unsigned long long i, unsigned long long c, unsigned long long* is, \
        unsigned long long* ie) \
{ \
    (void) up; \
    return loop_start((long) s, (long) e, (long) i, (long) c, (long*) is, (long*) ie, MONO); \
} \
bool GOMP_loop_ull_##NAME##_next(unsigned long long* is, unsigned long long* ie) \
{ \
    return hand_out((long*) is, (long*) ie); \
}
LOOP_ULL(dynamic, true)
LOOP_ULL(guided, true)
LOOP_ULL(static, true)
LOOP_ULL(nonmonotonic_dynamic, false)
LOOP_ULL(nonmonotonic_guided, false)

void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { barrier(); return false; }
void GOMP_barrier(void) { barrier(); }

void GOMP_critical_start(void)
{
    pause_at_random();
    pthread_mutex_lock(named(&unnamed_critical));
}
void GOMP_critical_end(void) { pthread_mutex_unlock(named(&unnamed_critical)); }
void GOMP_critical_name_start(void** p)
{
    pause_at_random();
    pthread_mutex_lock(named(p));
}
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(named(p)); }
void GOMP_atomic_start(void) { pthread_mutex_lock(named(&atomic_region)); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(named(&atomic_region)); }

bool GOMP_single_start(void)
{
    tls.ws++;
    if (!tls.team) return true;
    int zero = 0;
    return __atomic_compare_exchange_n(tls.team->singles + tls.ws, &zero, 1, false,
            __ATOMIC_RELAXED, __ATOMIC_RELAXED);
}

void* GOMP_single_copy_start(void)
{
    if (GOMP_single_start()) return nullptr;
    barrier();
    return tls.team->copies[0];
}
void GOMP_single_copy_end(void* data)
{
    if (tls.team) tls.team->copies[0] = data;
    barrier();
}

unsigned GOMP_sections_start(unsigned count)
{
    long is, ie;
    return loop_start(1, (long) count + 1, 1, 1, &is, &ie, true) ? (unsigned) is : 0;
}
unsigned GOMP_sections_next(void)
{
    long is, ie;
    return hand_out(&is, &ie) ? (unsigned) is : 0;
}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned)
{
    Loop l = {1, (long) count + 1, 1, 1};
    parallel(fn, data, n, &l);
}
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}

// tasks are run at once by the thread that meets them
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align,
        bool, unsigned, void**, int, void*)
{
    if (!cpy) { fn(data); return; }
    char* buf = (char*) malloc(size + align);
    char* arg = (char*) (((uintptr_t) buf + align - 1) & ~(uintptr_t) (align - 1));
    cpy(arg, data);
    fn(arg);
    free(buf);
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}

void omp_init_lock(uint32_t* lock)
{
    pthread_mutex_lock(&lock_table);
    unsigned k = lock_next;
    for (unsigned tries = 0; lock_used[k] && tries < kLocks; ++tries) k = k + 1 < kLocks ? k + 1 : 1;
    if (lock_used[k]) { fprintf(stderr, "ompshim: too many locks\n"); abort(); }
    lock_used[k] = 1;
    lock_next = k + 1 < kLocks ? k + 1 : 1;
    locks[k] = (pthread_mutex_t*) malloc(sizeof(pthread_mutex_t));
    pthread_mutex_init(locks[k], nullptr);
    *lock = k;
    pthread_mutex_unlock(&lock_table);
}
void omp_destroy_lock(uint32_t* lock)
{
    pthread_mutex_lock(&lock_table);
    pthread_mutex_destroy(locks[*lock]);
    free(locks[*lock]);
    lock_used[*lock] = 0;
    pthread_mutex_unlock(&lock_table);
}
void omp_set_lock(uint32_t* lock)
{
    pause_at_random();
    pthread_mutex_lock(locks[*lock]);
}
void omp_unset_lock(uint32_t* lock) { pthread_mutex_unlock(locks[*lock]); }
int omp_test_lock(uint32_t* lock) { return pthread_mutex_trylock(locks[*lock]) == 0; }

int omp_get_thread_num(void) { return tls.team ? tls.num : 0; }
int omp_get_num_threads(void) { return tls.team ? tls.team->n : 1; }
int omp_get_max_threads(void) { return default_threads(); }
int omp_get_num_procs(void) { return (int) sysconf(_SC_NPROCESSORS_ONLN); }
int omp_in_parallel(void) { return tls.team && tls.team->n > 1; }
int omp_get_level(void) { return tls.team ? tls.team->level + 1 : 0; }
void omp_set_num_threads(int n) { if (n > 0) my_threads = n; }
void omp_set_max_active_levels(int n) { g_levels = n; }
int omp_get_max_active_levels(void) { return g_levels.load(); }
void omp_set_nested(int n) { g_levels = n ? 64 : 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
double omp_get_wtime(void)
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

} // extern "C"
