// A CUDA runtime on the CPU, for testing only.
//
// Device memory ends at an inaccessible page and can be accessed only while a
// kernel or a copy runs, so host code that touches it and kernels that run over
// the end of an array crash. Its contents are NaN until written. The threads of
// a block are fibres which run one at a time, in an order (and with switches at
// atomic operations) chosen by a seed; blocks run one after the other, also in
// an order chosen by the seed. Launch limits are those of real devices.
#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <vector>

#include <cuda_runtime_api.h>
#include <cufft.h>

#if !defined(__x86_64__)
#error "only for x86-64"
#endif

struct pbt_Kernel
{
    const void* fn;
    const char* name;
    void (*run)(const void* fn, void** args);
    void (*check)(const char* name, void** args);
};

namespace {

[[noreturn]] void fail(const char* what, const char* more = "", long value = 0)
{
    fprintf(stderr, "CUDA-EMULATOR: %s %s %ld\n", what, more, value);
    fflush(stderr);
    abort();
}

// One call at a time (the library calls from several threads).
std::recursive_mutex gate;
typedef std::lock_guard<std::recursive_mutex> Lock;

// ---- device memory -------------------------------------------------------

struct Block { char* map; size_t mapped; size_t usable; char* data; size_t size; };
std::map<const char*, Block> blocks;
int unlocked = 0;
const unsigned char FILL = 0xFF, EDGE = 0xA7;

size_t page() { static size_t p = sysconf(_SC_PAGESIZE); return p; }

void protect(int prot)
{
    for (auto& b : blocks)
        if (mprotect(b.second.map + page(), b.second.usable, prot)) fail("mprotect");
}

struct Unlock
{
    Lock lock;
    Unlock() : lock(gate) { if (unlocked++ == 0) protect(PROT_READ | PROT_WRITE); }
    ~Unlock() { if (--unlocked == 0) protect(PROT_NONE); }
};

Block* find(const void* p)
{
    const char* c = (const char*) p;
    auto i = blocks.upper_bound(c);
    if (i == blocks.begin()) return 0;
    --i;
    Block& b = i->second;
    return c >= b.data && (c < b.data + b.size || (b.size == 0 && c == b.data)) ? &b : 0;
}

bool inside(const void* p, size_t n)
{
    Block* b = find(p);
    return b && (const char*) p + n <= b->data + b->size;
}

void check_edges(const Block& b)
{
    const char* start = b.map + page();
    for (const char* c = start; c < b.data; ++c)
        if ((unsigned char) *c != EDGE) fail("write before the start of device memory");
    for (const char* c = b.data + b.size; c < start + b.usable; ++c)
        if ((unsigned char) *c != EDGE) fail("write beyond the end of device memory");
}

// ---- fibres ----------------------------------------------------------------

extern "C" void pbt_switch(void** save, void* load);
asm(".text\n.globl pbt_switch\n.type pbt_switch,@function\npbt_switch:\n"
    "push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n"
    "mov %rsp,(%rdi)\n mov %rsi,%rsp\n"
    "pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n"
    ".size pbt_switch,.-pbt_switch\n");

enum State { RUN, WAIT, READY, DONE };
struct Fibre { void* sp; char* stack; State state; int where; dim3 idx; };

const size_t STACK = 192 * 1024;
std::vector<Fibre*> pool;      // idle fibres
Fibre* current = 0;
void* scheduler_sp = 0;
const pbt_Kernel* kernel = 0;
void** kernel_args = 0;
uint64_t seed = 0, state = 1;
long launches = 0;
std::vector<char> shared_mem;
void* shared_ptr = 0;

uint32_t draw(uint32_t n)
{
    state = state * 6364136223846793005ull + 1442695040888963407ull;
    return (uint32_t) ((state >> 33) % n);
}

} // namespace

extern "C" {
dim3 pbt_threadIdx, pbt_blockIdx, pbt_blockDim, pbt_gridDim;

static void fibre_main()
{
    for (;;)
    {
        kernel->run(kernel->fn, kernel_args);
        current->state = DONE;
        pbt_switch(&current->sp, scheduler_sp);
    }
}

static void park(State s, int where)
{
    if (!current) return;
    current->state = s;
    current->where = where;
    pbt_switch(&current->sp, scheduler_sp);
}

void pbt_syncthreads(int where) { park(WAIT, where); }
void pbt_preempt(void) { if (seed && draw(8) == 0) park(READY, 0); }
void* pbt_shared(void) { return shared_ptr; }
int pbt_on_device(const void* p) { return find(p) != 0; }
void pbt_bad_pointer(const char* name, int index, const void*)
{
    fail("kernel was given a pointer to host memory:", name, index);
}
void pbt_cuda_seed(uint64_t s) { seed = s; state = s * 2 + 1; }
long pbt_cuda_blocks(void) { return (long) blocks.size(); }
}

namespace {

Fibre* start(const dim3& idx)
{
    Fibre* f;
    if (pool.empty())
    {
        f = new Fibre;
        f->stack = (char*) mmap(0, STACK, PROT_READ | PROT_WRITE,
                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (f->stack == MAP_FAILED) fail("no memory for stacks");
        void** sp = (void**) (f->stack + STACK - 64);
        *--sp = 0;                      // (return address of fibre_main: never used)
        *--sp = (void*) fibre_main;
        for (int i = 0; i < 6; ++i) *--sp = 0;
        f->sp = sp;
    }
    else
    {
        f = pool.back();
        pool.pop_back();
    }
    f->state = RUN;
    f->idx = idx;
    return f;
}

void resume(Fibre* f)
{
    current = f;
    f->state = RUN;
    pbt_threadIdx = f->idx;
    pbt_switch(&scheduler_sp, f->sp);
    current = 0;
}

uint32_t gcd(uint32_t a, uint32_t b) { return b ? gcd(b, a % b) : a; }

void run_block(const dim3& block)
{
    const uint32_t n = block.x * block.y * block.z;
    // start the threads in an order of their own
    uint32_t step = 1, first = 0;
    if (seed && n > 1)
    {
        do step = 1 + draw(n); while (gcd(step, n) != 1);
        first = draw(n);
    }
    std::vector<Fibre*> live;
    auto settle = [&](size_t& i)
    {
        if (live[i]->state == DONE)
        {
            pool.push_back(live[i]);
            live[i] = live.back();
            live.pop_back();
        }
        else ++i;
    };
    for (uint32_t k = 0; k < n; ++k)
    {
        const uint32_t t = (uint32_t) ((first + (uint64_t) k * step) % n);
        live.push_back(start(dim3(t % block.x, t / block.x % block.y, t / block.x / block.y)));
        resume(live.back());
        size_t i = live.size() - 1;
        settle(i);
    }
    while (!live.empty())
    {
        bool ready = false;
        int where = -1;
        for (Fibre* f : live)
        {
            if (f->state == READY) ready = true;
            else if (where < 0) where = f->where;
            else if (where != f->where && !ready)
            {
                // (only wrong if all have stopped)
                bool any = false;
                for (Fibre* g : live) any |= g->state == READY;
                if (!any) fail("threads of a block wait at different barriers in", kernel->name,
                        f->where);
            }
        }
        if (!ready)     // all have reached the barrier
            for (Fibre* f : live) f->state = READY;
        if (seed && live.size() > 1)
            for (size_t i = live.size() - 1; i > 0; --i)
                std::swap(live[i], live[draw((uint32_t) i + 1)]);
        for (size_t i = 0; i < live.size(); )
        {
            if (live[i]->state == READY) { resume(live[i]); settle(i); }
            else ++i;
        }
    }
}

struct Event { double t; };
double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

} // namespace

extern "C" {

cudaError_t cudaMalloc(void** ptr, size_t bytes)
{
    Lock lock(gate);
    if (bytes == 0) { *ptr = 0; return cudaSuccess; }
    if (bytes > ((size_t) 4 << 30)) { *ptr = 0; return cudaErrorMemoryAllocation; }
    Block b;
    const size_t room = (bytes + 15) / 16 * 16;
    b.usable = (room + page() - 1) / page() * page();
    b.mapped = b.usable + 2 * page();
    b.map = (char*) mmap(0, b.mapped, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b.map == MAP_FAILED) { *ptr = 0; return cudaErrorMemoryAllocation; }
    b.size = bytes;
    char* begin = b.map + page();
    b.data = begin + b.usable - room;
    mprotect(begin, b.usable, PROT_READ | PROT_WRITE);
    memset(begin, EDGE, b.usable);
    memset(b.data, FILL, bytes);
    if (!unlocked) mprotect(begin, b.usable, PROT_NONE);
    blocks[b.data] = b;
    *ptr = b.data;
    return cudaSuccess;
}

cudaError_t cudaFree(void* ptr)
{
    Lock lock(gate);
    if (!ptr) return cudaSuccess;
    auto i = blocks.find((const char*) ptr);
    if (i == blocks.end()) fail("cudaFree of something that is no device memory");
    Block b = i->second;
    mprotect(b.map + page(), b.usable, PROT_READ);
    check_edges(b);
    munmap(b.map, b.mapped);
    blocks.erase(i);
    return cudaSuccess;
}

cudaError_t cudaMemset(void* ptr, int value, size_t bytes)
{
    Lock lock(gate);
    if (bytes == 0) return cudaSuccess;
    if (!inside(ptr, bytes)) return cudaErrorInvalidValue;
    Unlock u;
    memset(ptr, value, bytes);
    return cudaSuccess;
}

cudaError_t cudaMemsetAsync(void* ptr, int value, size_t bytes, cudaStream_t)
{
    return cudaMemset(ptr, value, bytes);
}

cudaError_t cudaMemcpy(void* dst, const void* src, size_t bytes, cudaMemcpyKind kind)
{
    Lock lock(gate);
    if (bytes == 0) return cudaSuccess;
    const bool to = kind == cudaMemcpyHostToDevice || kind == cudaMemcpyDeviceToDevice;
    const bool from = kind == cudaMemcpyDeviceToHost || kind == cudaMemcpyDeviceToDevice;
    if (kind != cudaMemcpyDefault)
    {
        if (to != (find(dst) != 0) || from != (find(src) != 0)) return cudaErrorInvalidValue;
    }
    if ((find(dst) && !inside(dst, bytes)) || (find(src) && !inside(src, bytes)))
        return cudaErrorInvalidValue;
    Unlock u;
    memmove(dst, src, bytes);
    return cudaSuccess;
}

cudaError_t cudaMemcpyAsync(void* dst, const void* src, size_t bytes, cudaMemcpyKind kind,
        cudaStream_t)
{
    return cudaMemcpy(dst, src, bytes, kind);
}

cudaError_t cudaSetDevice(int) { return cudaSuccess; }
cudaError_t cudaGetDevice(int* d) { *d = 0; return cudaSuccess; }
cudaError_t cudaDeviceSynchronize(void) { return cudaSuccess; }
cudaError_t cudaGetLastError(void) { return cudaSuccess; }
cudaError_t cudaPeekAtLastError(void) { return cudaSuccess; }
cudaError_t cudaStreamCreate(cudaStream_t* s) { *s = (cudaStream_t) malloc(1); return cudaSuccess; }
cudaError_t cudaStreamDestroy(cudaStream_t s) { free(s); return cudaSuccess; }
cudaError_t cudaStreamSynchronize(cudaStream_t) { return cudaSuccess; }
cudaError_t cudaEventCreate(cudaEvent_t* e) { *e = (cudaEvent_t) calloc(1, sizeof(Event)); return cudaSuccess; }
cudaError_t cudaEventDestroy(cudaEvent_t e) { free(e); return cudaSuccess; }
cudaError_t cudaEventRecord(cudaEvent_t e, cudaStream_t) { ((Event*) e)->t = now(); return cudaSuccess; }
cudaError_t cudaEventSynchronize(cudaEvent_t) { return cudaSuccess; }
cudaError_t cudaEventElapsedTime(float* ms, cudaEvent_t a, cudaEvent_t b)
{
    *ms = (float) (1e3 * (((Event*) b)->t - ((Event*) a)->t));
    return cudaSuccess;
}
const char* cudaGetErrorString(cudaError_t e)
{
    switch (e)
    {
    case cudaSuccess: return "no error";
    case cudaErrorInvalidValue: return "invalid argument";
    case cudaErrorMemoryAllocation: return "out of memory";
    case cudaErrorInvalidConfiguration: return "invalid configuration argument";
    default: return "unknown error";
    }
}

cudaError_t cudaLaunchKernel(const void* func, dim3 grid, dim3 block, void** args, size_t shared,
        cudaStream_t)
{
    Lock lock(gate);
    if (!func) return cudaErrorInvalidDeviceFunction;
    if (!grid.x || !grid.y || !grid.z || !block.x || !block.y || !block.z
            || grid.x > 2147483647u || grid.y > 65535 || grid.z > 65535
            || block.x > 1024 || block.y > 1024 || block.z > 64
            || (uint64_t) block.x * block.y * block.z > 1024)
        return cudaErrorInvalidConfiguration;
    if (shared > 49152) return cudaErrorInvalidValue;
    if (kernel) fail("kernel launched from a kernel");
    kernel = (const pbt_Kernel*) func;
    kernel_args = args;
    ++launches;
    kernel->check(kernel->name, args);
    // the end of dynamic shared memory is guarded, too
    static char* area = 0;
    const size_t most = (49152 + page() - 1) / page() * page();
    if (!area)
    {
        area = (char*) mmap(0, most + page(), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(area + most, page(), PROT_NONE);
    }
    shared_ptr = area + most - (shared + 15) / 16 * 16;
    {
        Unlock u;
        pbt_blockDim = block;
        pbt_gridDim = grid;
        const uint64_t n = (uint64_t) grid.x * grid.y * grid.z;
        const uint64_t first = seed ? draw((uint32_t) std::min<uint64_t>(n, 1u << 30)) : 0;
        const bool back = seed && draw(2);
        for (uint64_t k = 0; k < n; ++k)
        {
            const uint64_t b = ((back ? n - 1 - k : k) + first) % n;
            pbt_blockIdx = dim3(b % grid.x, b / grid.x % grid.y, b / grid.x / grid.y);
            memset(shared_ptr, FILL, shared);
            run_block(block);
        }
        for (auto& b : blocks) check_edges(b.second);
    }
    kernel = 0;
    return cudaSuccess;
}

// ---- cuFFT -----------------------------------------------------------------

struct Plan { std::vector<int> n, ie, oe; int is, id, os, od, batch; cufftType type; };
static std::map<int, Plan> plans;
static int next_plan = 1;

cufftResult cufftPlanMany(cufftHandle* plan, int rank, int* n, int* inembed, int istride, int idist,
        int* onembed, int ostride, int odist, cufftType type, int batch)
{
    if (rank < 1 || rank > 3) return CUFFT_INVALID_VALUE;
    if (type != CUFFT_C2C && type != CUFFT_Z2Z) return CUFFT_INVALID_VALUE;
    if (batch < 1) return CUFFT_INVALID_SIZE;
    for (int i = 0; i < rank; ++i) if (n[i] < 1) return CUFFT_INVALID_SIZE;
    Lock lock(gate);
    Plan p;
    p.n.assign(n, n + rank);
    p.type = type;
    p.batch = batch;
    long total = 1;
    for (int v : p.n) total *= v;
    if (inembed && onembed)
    {
        p.ie.assign(inembed, inembed + rank);
        p.oe.assign(onembed, onembed + rank);
        p.is = istride; p.id = idist; p.os = ostride; p.od = odist;
    }
    else
    {
        p.ie = p.oe = p.n;
        p.is = p.os = 1;
        p.id = p.od = (int) total;
    }
    *plan = next_plan++;
    plans[*plan] = p;
    return CUFFT_SUCCESS;
}

cufftResult cufftDestroy(cufftHandle plan)
{
    Lock lock(gate);
    return plans.erase(plan) ? CUFFT_SUCCESS : CUFFT_INVALID_PLAN;
}
}

namespace {
typedef std::complex<double> C;

void dft(std::vector<C>& x, const std::vector<C>& w)
{
    // w: the n-th roots of unity
    const size_t n = x.size();
    if (n == 1) return;
    size_t q = 0;
    for (size_t f : {2, 3, 5, 7}) if (n % f == 0) { q = f; break; }
    std::vector<C> y(n);
    if (!q || n == q)
    {
        for (size_t k = 0; k < n; ++k)
        {
            C s = 0;
            for (size_t j = 0; j < n; ++j) s += x[j] * w[j * k % n];
            y[k] = s;
        }
        x.swap(y);
        return;
    }
    const size_t m = n / q;
    std::vector<C> wm(m);
    for (size_t i = 0; i < m; ++i) wm[i] = w[i * q];
    std::vector<std::vector<C> > part(q, std::vector<C>(m));
    for (size_t i = 0; i < n; ++i) part[i % q][i / q] = x[i];
    for (auto& p : part) dft(p, wm);
    for (size_t k = 0; k < n; ++k)
    {
        C s = 0;
        for (size_t r = 0; r < q; ++r) s += part[r][k % m] * w[r * k % n];
        y[k] = s;
    }
    x.swap(y);
}

template<typename T> cufftResult exec(int plan, T* in, T* out, int dir, cufftType type)
{
    Lock lock(gate);
    auto it = plans.find(plan);
    if (it == plans.end()) return CUFFT_INVALID_PLAN;
    const Plan& p = it->second;
    if (p.type != type || (dir != CUFFT_FORWARD && dir != CUFFT_INVERSE)) return CUFFT_INVALID_VALUE;
    if (!find(in) || !find(out)) fail("cuFFT was given host memory");
    Unlock u;
    const int rank = (int) p.n.size();
    size_t total = 1;
    for (int v : p.n) total *= v;
    std::vector<C> a(total);
    for (int b = 0; b < p.batch; ++b)
    {
        auto place = [&](size_t i, const std::vector<int>& e, long stride, long dist)
        {
            long idx[3] = {0, 0, 0}, k = 0;
            for (int d = rank - 1; d >= 0; --d) { idx[d] = i % p.n[d]; i /= p.n[d]; }
            for (int d = 0; d < rank; ++d) k = k * e[d] + idx[d];
            return b * dist + k * stride;
        };
        for (size_t i = 0; i < total; ++i)
        {
            const T& v = in[place(i, p.ie, p.is, p.id)];
            a[i] = C(v.x, v.y);
        }
        size_t inner = 1;
        for (int d = rank - 1; d >= 0; --d)
        {
            const size_t n = p.n[d];
            std::vector<C> w(n), line(n);
            for (size_t i = 0; i < n; ++i) w[i] = std::polar(1.0, dir * 2 * M_PI * (double) i / (double) n);
            for (size_t o = 0; o < total / n; ++o)
            {
                const size_t base = o / inner * inner * n + o % inner;
                for (size_t i = 0; i < n; ++i) line[i] = a[base + i * inner];
                dft(line, w);
                for (size_t i = 0; i < n; ++i) a[base + i * inner] = line[i];
            }
            inner *= n;
        }
        for (size_t i = 0; i < total; ++i)
        {
            T& v = out[place(i, p.oe, p.os, p.od)];
            v.x = (decltype(v.x)) a[i].real();
            v.y = (decltype(v.y)) a[i].imag();
        }
    }
    return CUFFT_SUCCESS;
}
} // namespace

extern "C" {
cufftResult cufftExecC2C(cufftHandle plan, cufftComplex* in, cufftComplex* out, int dir)
{
    ++launches;
    return exec(plan, in, out, dir, CUFFT_C2C);
}

cufftResult cufftExecZ2Z(cufftHandle plan, cufftDoubleComplex* in, cufftDoubleComplex* out, int dir)
{
    ++launches;
    return exec(plan, in, out, dir, CUFFT_Z2Z);
}

// ---- arrays of the checks in device memory -----------------------------------

// Arrays that a check hands over in host memory are given to the library in
// device memory instead; pbt_gpu_sync() carries changes over before and after
// each call.
struct Mirror { char* host; char* dev; char* last; size_t size; int users; };
static std::vector<Mirror*> mirrors;
struct Handle { Mirror* mirror; char* data; int type; std::vector<int64_t> shape, stride; void* twin; };
static std::map<void*, Handle> handles;         // by sdp_Mem handle
static uint64_t place = ~0ull;                  // bit i: where the i-th array goes
static int placed = 0;

struct sdp_Mem;
sdp_Mem* sdp_mem_create_wrapper(const void* data, int type, int location, int32_t num_dims,
        const int64_t* shape, const int64_t* stride, int* status);
void sdp_mem_free(sdp_Mem* mem);
int64_t sdp_mem_type_size(int type);
int32_t sdp_mem_is_read_only(const sdp_Mem* mem);
void sdp_mem_set_read_only(sdp_Mem* mem, int32_t value);

void pbt_gpu_place(uint64_t bits) { place = bits; placed = 0; }

void* pbt_mem_create_wrapper(char* data, int type, int location, int32_t num_dims,
        const int64_t* shape, const int64_t* stride, int* status)
{
    bool gpu = location == 0 && data && type && sdp_mem_type_size(type) > 0
            && num_dims >= 0 && (stride || num_dims == 0);
    int64_t low = 0, high = gpu ? sdp_mem_type_size(type) : 0;
    bool empty = false;
    for (int i = 0; gpu && i < num_dims; ++i)
    {
        if (shape[i] < 0) gpu = false;
        empty |= shape[i] == 0;
        (stride[i] < 0 ? low : high) += (shape[i] - 1) * stride[i];
    }
    if (gpu)
    {
        gpu = place >> (placed < 63 ? placed : 63) & 1;
        ++placed;
    }
    if (!gpu)
        return sdp_mem_create_wrapper(data, type, location, num_dims, shape, stride, status);
    if (empty) low = high = 0;
    char* host = data + low;
    const size_t size = high - low;
    Mirror* m = 0;
    for (Mirror* o : mirrors)
        if (o->users && size && host >= o->host && host + size <= o->host + o->size) m = o;
    if (!m)
    {
        m = new Mirror{host, 0, (char*) malloc(size + 1), size, 0};
        cudaMalloc((void**) &m->dev, size ? size : 1);
        if (!m->dev) fail("out of memory for arrays");
        mirrors.push_back(m);
        if (size)
        {
            Unlock u;
            memcpy(m->dev, host, size);
            memcpy(m->last, host, size);
        }
    }
    ++m->users;
    void* h = sdp_mem_create_wrapper(m->dev + (size ? data - m->host : 0), type, 1, num_dims, shape,
            stride, status);
    Handle& x = handles[h];
    x.mirror = m;
    x.data = data;
    x.type = type;
    x.shape.assign(shape, shape + num_dims);
    x.stride.assign(stride, stride + num_dims);
    x.twin = 0;
    return h;
}

// (The device memory stays until the end of the case: plans may refer to it.)
void pbt_mem_free(sdp_Mem* h)
{
    auto i = handles.find(h);
    if (i != handles.end())
    {
        --i->second.mirror->users;
        if (i->second.twin) sdp_mem_free((sdp_Mem*) i->second.twin);
        handles.erase(i);
    }
    sdp_mem_free(h);
}

// The same array in host memory, or null if it is not one of ours.
void* pbt_gpu_twin(sdp_Mem* h)
{
    auto i = handles.find(h);
    if (i == handles.end()) return 0;
    Handle& x = i->second;
    int status = 0;
    if (!x.twin)
        x.twin = sdp_mem_create_wrapper(x.data, x.type, 0, (int) x.shape.size(), x.shape.data(),
                x.stride.data(), &status);
    sdp_mem_set_read_only((sdp_Mem*) x.twin, sdp_mem_is_read_only(h));
    return x.twin;
}

// Returns the number of arrays that were in device memory.
int pbt_gpu_reset(void)
{
    const int n = (int) mirrors.size();
    for (Mirror* m : mirrors)
    {
        cudaFree(m->dev);
        free(m->last);
        delete m;
    }
    mirrors.clear();
    handles.clear();
    place = ~0ull;
    placed = 0;
    return n;
}

// Host memory that has changed goes to the device (to = 1), or the other way around.
void pbt_gpu_sync(int to)
{
    bool any = false;
    for (Mirror* m : mirrors) any |= m->users > 0;
    if (!any) return;
    Unlock u;
    for (Mirror* m : mirrors)
    {
        char* src = to ? m->host : m->dev;
        if (!m->users || !m->size || !memcmp(src, m->last, m->size)) continue;
        memcpy(m->last, src, m->size);
        memcpy(to ? m->dev : m->host, src, m->size);
    }
}

long pbt_cuda_launches(void) { return launches; }
}
