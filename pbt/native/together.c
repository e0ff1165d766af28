// Makes calls of several threads start at the same moment: pbt_together is
// called with the arguments of another function, waits without touching them
// until all threads of the group have come this far, and jumps to the function.
#include <sched.h>
#include <time.h>

static __thread void* target;
static __thread int* counter;
static __thread int expected;

void pbt_together_arm(void* fn, int* count, int n)
{
    target = fn; counter = count; expected = n;
}

void* pbt_together_wait(void)
{
    struct timespec a, b;
    clock_gettime(CLOCK_MONOTONIC, &a);
    __atomic_fetch_add(counter, 1, __ATOMIC_RELAXED);
    while (__atomic_load_n(counter, __ATOMIC_RELAXED) < expected)
    {
        sched_yield();
        clock_gettime(CLOCK_MONOTONIC, &b);
        if (b.tv_sec - a.tv_sec > 20) break;
    }
    return target;
}

#if defined(__x86_64__)
__asm__(
    ".text\n.globl pbt_together\n.type pbt_together,@function\npbt_together:\n"
    "push %rbp\n mov %rsp,%rbp\n sub $192,%rsp\n"
    "mov %rdi,(%rsp)\n mov %rsi,8(%rsp)\n mov %rdx,16(%rsp)\n mov %rcx,24(%rsp)\n"
    "mov %r8,32(%rsp)\n mov %r9,40(%rsp)\n mov %rax,48(%rsp)\n"
    "movups %xmm0,64(%rsp)\n movups %xmm1,80(%rsp)\n movups %xmm2,96(%rsp)\n"
    "movups %xmm3,112(%rsp)\n movups %xmm4,128(%rsp)\n movups %xmm5,144(%rsp)\n"
    "movups %xmm6,160(%rsp)\n movups %xmm7,176(%rsp)\n"
    "call pbt_together_wait@PLT\n mov %rax,%r11\n"
    "mov (%rsp),%rdi\n mov 8(%rsp),%rsi\n mov 16(%rsp),%rdx\n mov 24(%rsp),%rcx\n"
    "mov 32(%rsp),%r8\n mov 40(%rsp),%r9\n mov 48(%rsp),%rax\n"
    "movups 64(%rsp),%xmm0\n movups 80(%rsp),%xmm1\n movups 96(%rsp),%xmm2\n"
    "movups 112(%rsp),%xmm3\n movups 128(%rsp),%xmm4\n movups 144(%rsp),%xmm5\n"
    "movups 160(%rsp),%xmm6\n movups 176(%rsp),%xmm7\n"
    "leave\n jmp *%r11\n"
    ".size pbt_together,.-pbt_together\n");
#endif
