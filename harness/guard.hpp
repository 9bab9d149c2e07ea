// A small arena between two inaccessible pages; faults are turned into return values.
#pragma once
#include <csetjmp>
#include <csignal>
#include <sys/mman.h>
#include <unistd.h>
#include "mc.hpp"
namespace mc
{
inline sigjmp_buf fault_jmp;
inline volatile sig_atomic_t fault_armed = 0;
inline void fault_handler(int s) { if (fault_armed) { fault_armed = 0; siglongjmp(fault_jmp, s); } _exit(99); }
struct Arena
{
    unsigned char *base, *lo, *hi; // [lo,hi) accessible
    Arena()
    {
        const std::size_t pg = 4096;
        base = (unsigned char *) mmap(nullptr, 4 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED) { std::perror("mmap"); std::exit(3); }
        mprotect(base, pg, PROT_NONE);
        mprotect(base + 3 * pg, pg, PROT_NONE);
        lo = base + pg; hi = base + 3 * pg;
        struct sigaction sa {};
        sa.sa_handler = fault_handler; sa.sa_flags = SA_NODEFER;
        sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGILL, &sa, nullptr); sigaction(SIGTRAP, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr);
    }
    void paint() { std::memset(lo, 0xC3, hi - lo); }
    // only the surroundings of the range in use are repainted and inspected
    void paint(unsigned char *p, std::size_t n) { auto *b = std::max(lo, p - 256), *e = std::min(hi, p + n + 256); std::memset(b, 0xC3, e - b); }
    unsigned char *spoiled(unsigned char *p, std::size_t n)
    {
        for (auto *c = std::max(lo, p - 256); c < p; ++c) if (*c != 0xC3) return c;
        for (auto *c = p + n; c < std::min(hi, p + n + 256); ++c) if (*c != 0xC3) return c;
        return nullptr;
    }
};
inline Arena &arena() { static Arena a; return a; }
// returns 0 or the signal number
template<class F> MC_NOINLINE int guarded(F &&f)
{
    arena();
    if (int s = sigsetjmp(fault_jmp, 1)) return s;
    fault_armed = 1;
    f();
    fault_armed = 0;
    return 0;
}
} // namespace mc
