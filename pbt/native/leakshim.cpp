// Counts live heap blocks whose allocation was requested by code inside a
// given address range (the library under test). Preloaded into the worker.
#include <cstddef>
#include <cstdint>
#include <cerrno>
#include <atomic>
#include <new>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

static uintptr_t g_lo = 1, g_hi = 0;
static std::atomic_flag g_lock = ATOMIC_FLAG_INIT;
static const size_t N = 1u << 18;
static struct { uintptr_t p; size_t n; } g_tab[N];
static size_t g_count = 0, g_bytes = 0;

static inline size_t slot(uintptr_t p) { return (p >> 4) * 0x9E3779B97F4A7C15ull >> 46; }
struct Lock {
    Lock() { while (g_lock.test_and_set(std::memory_order_acquire)) {} }
    ~Lock() { g_lock.clear(std::memory_order_release); }
};
static void add(void* p, size_t n)
{
    if (!p || g_count > N / 2) return;
    Lock l;
    size_t i = slot((uintptr_t)p) & (N - 1);
    while (g_tab[i].p) i = (i + 1) & (N - 1);
    g_tab[i].p = (uintptr_t)p; g_tab[i].n = n;
    g_count++; g_bytes += n;
}
static void del(void* p)
{
    if (!p || !g_count) return;
    Lock l;
    size_t i = slot((uintptr_t)p) & (N - 1);
    while (g_tab[i].p && g_tab[i].p != (uintptr_t)p) i = (i + 1) & (N - 1);
    if (!g_tab[i].p) return;
    g_count--; g_bytes -= g_tab[i].n;
    size_t j = i;
    for (;;) {
        g_tab[i].p = 0;
        for (;;) {
            j = (j + 1) & (N - 1);
            if (!g_tab[j].p) return;
            size_t k = slot(g_tab[j].p) & (N - 1);
            if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
            break;
        }
        g_tab[i] = g_tab[j];
        i = j;
    }
}
#define MINE(ra) ((uintptr_t)(ra) >= g_lo && (uintptr_t)(ra) < g_hi)

extern "C" {
void leak_set_range(uintptr_t lo, uintptr_t hi) { g_lo = lo; g_hi = hi; }
size_t leak_count() { return g_count; }
size_t leak_bytes() { return g_bytes; }

void* malloc(size_t n)
{
    void* p = __libc_malloc(n);
    if (MINE(__builtin_return_address(0))) add(p, n);
    return p;
}
void* calloc(size_t a, size_t b)
{
    void* p = __libc_calloc(a, b);
    if (MINE(__builtin_return_address(0))) add(p, a * b);
    return p;
}
void* realloc(void* q, size_t n)
{
    del(q);
    void* p = __libc_realloc(q, n);
    if (MINE(__builtin_return_address(0))) add(p, n);
    return p;
}
void* aligned_alloc(size_t al, size_t n)
{
    void* p = __libc_memalign(al, n);
    if (MINE(__builtin_return_address(0))) add(p, n);
    return p;
}
void* memalign(size_t al, size_t n)
{
    void* p = __libc_memalign(al, n);
    if (MINE(__builtin_return_address(0))) add(p, n);
    return p;
}
int posix_memalign(void** out, size_t al, size_t n)
{
    void* p = __libc_memalign(al, n);
    if (!p) return ENOMEM;
    if (MINE(__builtin_return_address(0))) add(p, n);
    *out = p;
    return 0;
}
void free(void* p)
{
    del(p);
    __libc_free(p);
}
}

void* operator new(size_t n)
{
    void* p = __libc_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (MINE(__builtin_return_address(0))) add(p, n);
    return p;
}
void* operator new[](size_t n)
{
    void* p = __libc_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (MINE(__builtin_return_address(0))) add(p, n);
    return p;
}
void* operator new(size_t n, std::align_val_t al)
{
    void* p = __libc_memalign((size_t)al, n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (MINE(__builtin_return_address(0))) add(p, n);
    return p;
}
void operator delete(void* p) noexcept { del(p); __libc_free(p); }
void operator delete[](void* p) noexcept { del(p); __libc_free(p); }
void operator delete(void* p, size_t) noexcept { del(p); __libc_free(p); }
void operator delete[](void* p, size_t) noexcept { del(p); __libc_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { del(p); __libc_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { del(p); __libc_free(p); }
